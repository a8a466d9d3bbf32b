exec(open('/verif/tools/seeds/e.py').read().split("S=[")[0])
C='pkg/monny/command.go'; R='pkg/monny/report.go'; N='pkg/monny/handlers.go'; M='pkg/monny/memory.go'
D=dict(pkg='pkg/monny',flags='')
PIPE='''
// demoInput makes a pipe the standard input.
func demoInput(t *testing.T) (*os.File, func()) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdin
	os.Stdin = r
	return w, func() { os.Stdin = old; r.Close() }
}

'''
S=[
dict(D,id="stdin-limited",prop="C34",needs="more than a megabyte of piped input",
 breaks="the command reads only the first megabyte",
 edits=[(C,"io.Copy(stdinWriter, os.Stdin)","io.Copy(stdinWriter, io.LimitReader(os.Stdin, 1<<20))")],
 test=H%'	"os"\n	"strings"\n'+PIPE+'''func TestDemo(t *testing.T) {
	w, undo := demoInput(t)
	defer undo()
	go func() {
		w.Write([]byte(strings.Repeat("x", 1<<20+5)))
		w.Close()
	}()
	c, _, out := demoCommand(t, []string{"wc", "-c"})
	c.Exec()
	c.Wait()
	if got := strings.TrimSpace(string(out.data)); got != "1048581" {
		t.Fatal(got)
	}
	var _ = proto.Alert
}
'''),
dict(D,id="stdin-held-back",prop="C34",needs="piped input that stays open",
 breaks="the command gets input only when there is enough of it",
 edits=[(C,"			_, err := io.Copy(stdinWriter, os.Stdin)\n","			buffered := bufio.NewWriter(stdinWriter)\n			defer buffered.Flush()\n			_, err := io.Copy(struct{ io.Writer }{buffered}, os.Stdin)\n")],
 test=H%'	"os"\n'+PIPE+'''func TestDemo(t *testing.T) {
	w, undo := demoInput(t)
	defer undo()
	defer w.Close()
	w.Write([]byte("ping\\n"))
	c, _, out := demoCommand(t, []string{"head", "-n", "1"})
	done := make(chan bool)
	go func() { c.Exec(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("no input")
	}
	c.Wait()
	if string(out.data) != "ping\\n" {
		t.Fatalf("%q", out.data)
	}
	var _ = proto.Alert
}
'''),
dict(D,id="echo-error-ends-reading",prop="C35",needs="a write of an echoed line of standard error that fails",
 breaks="nothing is read of standard error any more; the command blocks when it writes more",
 edits=[(C,'''log line to stderr: %+v", err))
			}
''','''log line to stderr: %+v", err))
				return
			}
''')],
 test=H%'	"errors"\n'+'''type badOut struct{}

func (badOut) Write([]byte) (int, error) { return 0, errors.New("bad") }
func (badOut) Close() error              { return nil }

func TestDemo(t *testing.T) {
	SuppressErrorReporting = true
	c, _, _ := demoCommand(t, []string{"sh", "-c", "echo a >&2; sleep 0.2; echo b >&2; sleep 0.2; echo c >&2"}, logErr(badOut{}))
	c.Exec()
	c.Wait()
	if len(c.Stderr) != 3 {
		t.Fatal(c.Stderr)
	}
	var _ = proto.Alert
}
'''),
dict(D,id="partial-memory",prop="C35",needs="memory information of which a part can not be understood",
 breaks="a part of the memory counts as a measurement",
 edits=[(M,'''			if err != nil {
				return 0
			}
			res''','''			if err != nil {
				break
			}
			res'''),(M,"			_, err := fmt","			_, err = fmt")],
 test=None),
dict(D,id="error-quotes-line",prop="C36",needs="a write of an echoed line that fails",
 breaks="the error report carries the line",
 edits=[(C,'''"error writing log line to stdout: %+v", err''','''"error writing log line %q to stdout: %+v", stdoutScanner.Text(), err''')],
 test=H%'	"errors"\n	"strings"\n'+'''type badOut struct{}

func (badOut) Write([]byte) (int, error) { return 0, errors.New("bad") }
func (badOut) Close() error              { return nil }

type demoErrors struct {
	mu   sync.Mutex
	errs []string
}

func (d *demoErrors) ReportError(err error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.errs = append(d.errs, err.Error())
}

func TestDemo(t *testing.T) {
	c, _, _ := demoCommand(t, []string{"echo", "secret"}, logOut(badOut{}))
	d := &demoErrors{}
	c.errors = d
	c.Exec()
	c.Wait()
	for _, e := range d.errs {
		if strings.Contains(e, "secret") {
			t.Fatal(e)
		}
	}
	var _ = proto.Alert
}
'''),
dict(D,id="server-not-verified",prop="C36",needs="a server that only claims to be the configured one",
 breaks="reports are sent to whoever answers",
 edits=[(R,"credentials.NewTLS(&tls.Config{})","credentials.NewTLS(&tls.Config{InsecureSkipVerify: true})")],
 test=H%'	"crypto/tls"\n	"net"\n	"net/http/httptest"\n'+'''func TestDemo(t *testing.T) {
	SuppressErrorReporting = true
	// a server with a certificate that nobody has signed
	ts := httptest.NewTLSServer(nil)
	cert := ts.TLS.Certificates[0]
	ts.Close()
	l, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{cert}, NextProtos: []string{"h2"}})
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	result := make(chan error, 10)
	go func() {
		conn, err := l.Accept()
		if err != nil {
			return
		}
		conn.SetDeadline(time.Now().Add(10 * time.Second))
		if err := conn.(*tls.Conn).Handshake(); err != nil {
			result <- err
			return
		}
		b := make([]byte, 1)
		_, err = conn.Read(b)
		result <- err
	}()
	host, port, _ := net.SplitHostPort(l.Addr().String())
	c, _, _ := demoCommand(t, nil)
	s := &senderService{host: host, port: port, errors: errorService{}}
	r := s.create(c, proto.Success)
	go s.sendBackground(r, make(chan error, 1), make(chan bool, 1))
	select {
	case err := <-result:
		if err == nil {
			t.Fatal("the client talks to a server that it can not verify")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("no connection")
	}
}
'''),
dict(D,pkg='pkg/rng',id="tails-cut",prop="C37",needs="a normal number beyond four",
 breaks="the sample is not that of the generator",
 edits=[('pkg/rng/lognormal.go',"	return math.Exp(r.r.NormFloat64()*r.stdev + r.mean)","	z := math.Max(-4, math.Min(4, r.r.NormFloat64()))\n	return math.Exp(z*r.stdev + r.mean)")],
 test='''package rng

import "testing"

func TestDemo(t *testing.T) {
	r := NewLogNormalRNG(0, 1)
	most := 0.0
	for i := 0; i < 5000000; i++ {
		if x := r.Rand(); x > most {
			most = x
		}
	}
	// 150 samples above e^4 are expected
	if most < 55 {
		t.Fatal(most)
	}
}
'''),
dict(D,id="carriage-returns",prop="C01",needs="a line with carriage returns before its end",
 breaks="bytes of the line are not echoed",
 edits=[(C,"c.out.Write(stdoutScanner.Bytes()); err","c.out.Write(bytes.TrimRight(stdoutScanner.Bytes(), \"\\r\")); err"),(C,'	"bufio"\n','	"bufio"\n	"bytes"\n')],
 test=H%''+'''func TestDemo(t *testing.T) {
	c, _, out := demoCommand(t, []string{"printf", "a\\\\r\\\\r\\\\nb"})
	c.Exec()
	c.Wait()
	if string(out.data) != "a\\r\\nb\\n" {
		t.Fatalf("%q", out.data)
	}
	var _ = proto.Alert
}
'''),
dict(D,id="memory-warning-strict",prop="C05",needs="memory of exactly the limit",
 breaks="no warning is sent",
 edits=[(N,"mem >= c.Config.MemoryWarn {","mem > c.Config.MemoryWarn {")],
 test=None),
dict(D,id="first-rule-only",prop="C09",needs="a line that matches several rules",
 breaks="only one match is recorded",
 edits=[(C,'''				Index: found,
			})
''','''				Index: found,
			})
			break
''')],
 test=H%''+'''func TestDemo(t *testing.T) {
	c, _, _ := demoCommand(t, nil, Rule("a"), Rule("b"))
	if m := checkRule([]byte("ab"), c.Config.Rules); len(m) != 2 {
		t.Fatal(m)
	}
	var _ = proto.Alert
}
'''),
dict(D,id="period-exclusive",prop="C07",needs="matches exactly a period apart",
 breaks="a match at the start of the period is not counted",
 edits=[(R,"if now.Sub(match.Time) <= period {","if now.Sub(match.Time).Round(time.Second) < period {")],
 test=H%''+'''func TestDemo(t *testing.T) {
	m := []RuleMatch{{Time: time.Now().Add(-1600 * time.Millisecond)}, {Time: time.Now()}}
	if !calcAlertRate(m, 2, 2*time.Second) {
		t.Fatal("not counted")
	}
	var _ = proto.Alert
}
'''),
dict(D,id="unreadable-file-ends-check",prop="C12",needs="a file that can not be inspected before one that does not exist",
 breaks="the missing file is not reported",
 edits=[(N,"			continue\n","			return\n")],
 test=H%''+'''func TestDemo(t *testing.T) {
	// a path that can not exist, for a reason other than that it does not
	c, s, _ := demoCommand(t, []string{"true"}, Creates("/tmp/\\x00"), Creates("/nonexistent/demo"))
	c.Exec()
	c.Wait()
	if len(s.of(proto.FileNotCreated)) != 1 {
		t.Fatal(s.sent)
	}
}
'''),
dict(D,id="finish-rounded",prop="C13",needs="a run that ends in the second half of a second",
 breaks="the report carries another end of the run",
 edits=[(R,"c.Finish.Unix()","c.Finish.Round(time.Second).Unix()")],
 test=H%''+'''func TestDemo(t *testing.T) {
	c, _, _ := demoCommand(t, nil)
	c.Finish = time.Unix(1000, 700000000)
	if r := reportFromCommand(c, proto.Success, func(error) {}); r.Finish != 1000 {
		t.Fatal(r.Finish)
	}
}
'''),
dict(D,id="signal-death-valid",prop="C02",needs="a command that dies by a signal",
 breaks="the report gives an exit code of the signal",
 edits=[(N,"int32(sysinfo.ExitStatus())","int32(sysinfo.ExitStatus())\n			if sysinfo.Signaled() {\n				c.ExitCode = 128 + int32(sysinfo.Signal())\n			}")],
 test=H%''+'''func TestDemo(t *testing.T) {
	c, _, _ := demoCommand(t, []string{"sh", "-c", "kill -9 $$"})
	c.Exec()
	c.Wait()
	if c.ExitCode != -1 {
		t.Fatal(c.ExitCode)
	}
	var _ = proto.Alert
}
'''),
dict(D,id="hour-shortened",prop="C03",needs="an outage of more than forty minutes",
 breaks="the report is given up",
 edits=[(R,"time.After(1 * time.Hour)","time.After(40 * time.Minute)")],
 test=None),
]
