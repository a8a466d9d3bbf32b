H='''package monny

import (
%s	"sync"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/pkg/proto"
)

// demoSender stands in for the server.
type demoSender struct {
	mu   sync.Mutex
	wg   sync.WaitGroup
	sent []*pb.Report
}

func (s *demoSender) create(c *Command, reason proto.ReportReason) *pb.Report {
	return reportFromCommand(c, reason, func(e error) {})
}

func (s *demoSender) sendBackground(report *pb.Report, result chan error, cancel chan bool) {
	s.mu.Lock()
	s.sent = append(s.sent, report)
	s.mu.Unlock()
	result <- nil
}

func (s *demoSender) wait() { time.Sleep(300 * time.Millisecond) }

func (s *demoSender) of(r proto.ReportReason) (out []*pb.Report) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, x := range s.sent {
		if x.ReportReason == pb.ReportReason(r) {
			out = append(out, x)
		}
	}
	return
}

type demoOut struct {
	mu    sync.Mutex
	delay time.Duration
	data  []byte
}

func (o *demoOut) Write(b []byte) (int, error) {
	time.Sleep(o.delay)
	o.mu.Lock()
	defer o.mu.Unlock()
	o.data = append(o.data, b...)
	return len(b), nil
}

func (o *demoOut) Close() error { return nil }

func demoCommand(t *testing.T, cmd []string, opts ...ConfigOption) (*Command, *demoSender, *demoOut) {
	out := &demoOut{}
	c, errs := New(cmd, append([]ConfigOption{ID("id"), Shell("sh"), logOut(out), logErr(&demoOut{})}, opts...)...)
	if len(errs) > 0 {
		t.Fatal(errs)
	}
	s := &demoSender{}
	c.report = &Report{sender: s}
	return c, s, out
}

'''
D=dict(pkg="pkg/monny")
C="pkg/monny/command.go"; R="pkg/monny/report.go"; N="pkg/monny/handlers.go"; F="pkg/monny/config.go"; P="pkg/monny/parse.go"
S=[
dict(D,id="reap-before-copy",prop="C01",needs="a command that ends while lines of its output are still in the pipe",
 breaks="output that was not read yet when the command ends is lost",
 edits=[(C,"		wg.Wait()\n		cmd.Wait()\n","		cmd.Wait()\n		wg.Wait()\n")],
 test=H%'	"strings"\n'+'''func TestDemo(t *testing.T) {
	c, _, out := demoCommand(t, []string{"sh", "-c", "i=0; while [ $i -lt 3000 ]; do echo line number $i of the output; i=$((i+1)); done"})
	out.delay = 300 * time.Microsecond
	if err := c.Exec(); err != nil {
		t.Fatal(err)
	}
	c.Wait()
	if n := strings.Count(string(out.data), "\\n"); n != 3000 {
		t.Fatalf("%d of 3000 lines", n)
	}
}
'''),
dict(D,id="exit-status-sign",prop="C02",needs="an exit status above 127",
 breaks="the failure report carries another exit status",
 edits=[(N,"c.ExitCode = int32(sysinfo.ExitStatus())","c.ExitCode = int32(int8(sysinfo.ExitStatus()))")],
 test=H%''+'''func TestDemo(t *testing.T) {
	c, s, _ := demoCommand(t, []string{"sh", "-c", "exit 200"})
	c.Exec()
	c.Wait()
	r := s.of(proto.Failure)
	if len(r) != 1 || r[0].ExitCode != 200 || !r[0].ExitCodeValid {
		t.Fatalf("reports %v", r)
	}
}
'''),
dict(D,id="server-error-gives-up",prop="C03",needs="a delivery that fails with an error of the server or the network",
 breaks="the report is not sent again and lost",
 edits=[(R,"		ack, err := client.Create(ctx, report)\n		if err != nil {\n			return err\n		}\n","		ack, err := client.Create(ctx, report)\n		if err != nil {\n			return &backoff.PermanentError{Err: err}\n		}\n")],
 test=H.replace('"github.com/BTBurke/monny/pkg/proto"\n','"github.com/BTBurke/monny/pkg/proto"\n	"google.golang.org/grpc"\n')%'	"context"\n	"errors"\n	"net"\n'+'''type demoServer struct {
	mu sync.Mutex
	n  int
}

func (s *demoServer) Create(ctx context.Context, r *pb.Report) (*pb.ReportAck, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	if s.n == 1 {
		return nil, errors.New("not now")
	}
	return &pb.ReportAck{Success: true}, nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	srv := &demoServer{}
	g := grpc.NewServer()
	pb.RegisterReportsServer(g, srv)
	go g.Serve(l)
	defer g.Stop()
	c, errs := New([]string{"true"}, ID("id"), Shell("sh"), Insecure(), Host(l.Addr().String()))
	if len(errs) > 0 {
		t.Fatal(errs)
	}
	SuppressErrorReporting = true
	if err := c.Exec(); err != nil {
		t.Fatal(err)
	}
	c.Wait()
	if srv.n != 2 {
		t.Fatalf("%d deliveries", srv.n)
	}
}
'''),
dict(D,id="kill-only-after-warning",prop="C04",needs="memory that jumps over the warning and the kill limit between two checks, and falls again before the next",
 breaks="a command above its kill limit at a check is not killed",
 edits=[(N,"	mem := calculateMemory(cmd.Process.Pid)\n","	warned := c.Config.MemoryWarn == 0 || c.memWarnSent\n	mem := calculateMemory(cmd.Process.Pid)\n"),
  (N,"	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {\n","	if warned && c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {\n")],
 test=H%'	"os/exec"\n'+'''func TestDemo(t *testing.T) {
	c, s, _ := demoCommand(t, nil, MemoryWarn("1"), MemoryKill("1"))
	cmd := exec.Command("sleep", "20")
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	defer cmd.Wait()
	defer cmd.Process.Kill()
	time.Sleep(200 * time.Millisecond)
	if err := (handler{}).CheckMemory(c, cmd); err == nil {
		t.Fatal("the command is not to be killed")
	}
	c.Wait()
	if n := len(s.of(proto.MemoryWarning)); n != 1 {
		t.Fatalf("%d warnings", n)
	}
}
'''),
dict(D,id="one-warning-of-any-kind",prop="C05",needs="a memory warning that was sent before the time warning is due",
 breaks="the time warning is not sent",
 edits=[(N,"	if c.timeWarnSent {\n","	if c.timeWarnSent || c.memWarnSent {\n")],
 test=H%'	"os/exec"\n'+'''func TestDemo(t *testing.T) {
	c, s, _ := demoCommand(t, nil, MemoryWarn("1"), NotifyTimeout("1s"))
	cmd := exec.Command("sleep", "20")
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	defer cmd.Wait()
	defer cmd.Process.Kill()
	time.Sleep(200 * time.Millisecond)
	(handler{}).CheckMemory(c, cmd)
	(handler{}).TimeWarning(c)
	c.Wait()
	if n, m := len(s.of(proto.MemoryWarning)), len(s.of(proto.TimeWarning)); n != 1 || m != 1 {
		t.Fatalf("%d and %d warnings", n, m)
	}
}
'''),
dict(D,id="repeated-line-no-alert",prop="C06",needs="a matching line that is the same as the line before, whose alert is already delivered",
 breaks="the second match is in no alert",
 edits=[(C,"func (c *Command) processStdout(line []byte) {\n	matches := checkRule(line, c.Config.Rules)\n","func (c *Command) processStdout(line []byte) {\n	matches := checkRule(line, c.Config.Rules)\n	repeated := len(c.Stdout) > 0 && c.Stdout[len(c.Stdout)-1] == string(line)\n"),
 (C,"	c.Stdout = addHistory(c.Stdout, string(line), c.Config.StdoutHistory)\n	c.mutex.Unlock()\n	if len(matches) > 0 {\n","	c.Stdout = addHistory(c.Stdout, string(line), c.Config.StdoutHistory)\n	c.mutex.Unlock()\n	if len(matches) > 0 && !repeated {\n")],
 test=H%''+'''func TestDemo(t *testing.T) {
	c, s, _ := demoCommand(t, nil, Rule("failed"))
	c.processStdout([]byte("it failed"))
	time.Sleep(200 * time.Millisecond)
	c.processStdout([]byte("it failed"))
	c.Wait()
	if n := len(s.of(proto.Alert)); n != 2 {
		t.Fatalf("%d alerts", n)
	}
}
'''),
dict(D,id="period-in-whole-seconds",prop="C07",needs="a match that is less than a second older than the period",
 breaks="an alert is sent although there are not enough matches in the period",
 edits=[(R,"			if now.Sub(match.Time) <= period {\n","			if now.Sub(match.Time).Truncate(time.Second) <= period {\n")],
 test=H%''+'''func TestDemo(t *testing.T) {
	now := time.Now()
	m := []RuleMatch{{Time: now.Add(-2500 * time.Millisecond)}, {Time: now}}
	if calcAlertRate(m, 2, 2*time.Second) {
		t.Fatal("alert for one match in the period")
	}
	if !calcAlertRate(m, 2, 20*time.Second) {
		t.Fatal("no alert for two matches in the period")
	}
	var _ sync.Mutex
	var _ pb.Report
	var _ = proto.Alert
}
'''),
dict(D,id="histories-coupled",prop="C08",needs="both history sizes, that of standard error given first",
 breaks="the history of standard error has the size configured for standard output",
 edits=[(F,"		c.StdoutHistory = hist\n","		c.StdoutHistory = hist\n		if c.StderrHistory > hist {\n			c.StderrHistory = hist\n		}\n")],
 test=H%''+'''func TestDemo(t *testing.T) {
	c, s, _ := demoCommand(t, []string{"sh", "-c", "for i in 1 2 3 4; do echo $i >&2; done"}, StderrHistory("5"), StdoutHistory("2"))
	c.Exec()
	c.Wait()
	r := s.of(proto.Success)
	if len(r) != 1 || len(r[0].Stderr) != 4 {
		t.Fatalf("reports %v", r)
	}
}
'''),
dict(D,id="occurrences-capped",prop="C09",needs="a line with more than 50 occurrences of a rule",
 breaks="not all positions are recorded",
 edits=[(C,"rule.Regex.FindAllIndex(text, -1)","rule.Regex.FindAllIndex(text, 50)")],
 test=H%'	"strings"\n'+'''func TestDemo(t *testing.T) {
	c, _, _ := demoCommand(t, nil, Rule("x"))
	m := checkRule([]byte(strings.Repeat("x ", 60)), c.Config.Rules)
	if len(m) != 1 || len(m[0].Index) != 60 {
		t.Fatalf("matches %v", m)
	}
	var _ = proto.Alert
}
'''),
dict(D,id="json-rule-trimmed",prop="C10",needs="a JSON rule whose expression begins or ends with a space",
 breaks="the rule is applied without the space",
 edits=[(P,"		return JSONRule(jrule[0][0:len(jrule[0])-1], jrule[1]), nil\n","		return JSONRule(jrule[0][0:len(jrule[0])-1], strings.TrimSpace(jrule[1])), nil\n")],
 test=H%''+'''func TestDemo(t *testing.T) {
	o, err := handleOption("rule-json", "level: error ")
	if err != nil {
		t.Fatal(err)
	}
	c, _, _ := demoCommand(t, nil, o)
	if got := c.Config.Rules[0].Regex.String(); got != " error " {
		t.Fatalf("rule %q", got)
	}
	var _ = proto.Alert
}
'''),
dict(D,id="period-truncated",prop="C11",needs="a rule period that is not a number of seconds",
 breaks="another period is used",
 edits=[(F,"		c.RulePeriod = duration\n","		c.RulePeriod = duration.Truncate(time.Second)\n")],
 test=H%''+'''func TestDemo(t *testing.T) {
	c, _, _ := demoCommand(t, nil, RulePeriod("1500ms"))
	if c.Config.RulePeriod != 1500*time.Millisecond {
		t.Fatal(c.Config.RulePeriod)
	}
	var _ = proto.Alert
}
'''),
dict(D,id="empty-file-not-listed",prop="C12",needs="an expected file that exists and is empty",
 breaks="the file is not recorded",
 edits=[(N,"		case err == nil:\n","		case err == nil && finfo.Size() > 0:\n")],
 test=H%'	"io/ioutil"\n	"os"\n'+'''func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	c, _, _ := demoCommand(t, []string{"true"}, Creates(f.Name()))
	c.Exec()
	c.Wait()
	if len(c.Created) != 1 {
		t.Fatal(c.Created)
	}
	var _ = proto.Alert
}
'''),
dict(D,id="memory-32-bit",prop="C13",needs="a command that used more than 4 TB",
 breaks="the report carries another maximum memory",
 edits=[(R,"MaxMemory:     c.MaxMemory,","MaxMemory:     uint64(uint32(c.MaxMemory)),")],
 test=H%''+'''func TestDemo(t *testing.T) {
	c, _, _ := demoCommand(t, nil)
	c.MaxMemory = 1<<32 + 7
	if r := reportFromCommand(c, proto.Success, func(error) {}); r.MaxMemory != 1<<32+7 {
		t.Fatal(r.MaxMemory)
	}
}
'''),
dict(D,id="duration-rounded",prop="C13",needs="a run whose time is not a number of milliseconds",
 breaks="the duration in the report is not that of the run",
 edits=[(R,"c.Duration.String()","c.Duration.Round(time.Millisecond).String()")],
 test=H%''+'''func TestDemo(t *testing.T) {
	c, _, _ := demoCommand(t, nil)
	c.Duration = 1234567 * time.Nanosecond
	if r := reportFromCommand(c, proto.Success, func(error) {}); r.Duration != "1.234567ms" {
		t.Fatal(r.Duration)
	}
}
'''),
]
