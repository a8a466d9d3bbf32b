_e={}
exec(open('/verif/tools/seeds/e.py').read().split("S=[")[0],_e)
HM=_e['H']
C='pkg/monny/command.go'; R='pkg/monny/report.go'; N='pkg/monny/handlers.go'
D=dict(pkg='pkg/monny',flags='')
H='''package %s

import (
	"testing"
%s
)

'''
S=[
dict(id="log-line-held-back",prop="C38",needs="a program that pauses after a line",
 breaks="a log line is published and echoed only when the next one or the end of the stream has been read",
 edits=[("pkg/monny/proc/logs.go","	for scanner.Scan() {\n		data := scanner.Bytes()\n","	for more := scanner.Scan(); more; {\n		data := append([]byte{}, scanner.Bytes()...)\n		more = scanner.Scan()\n")],
 pkg="pkg/monny/proc",test=H%("proc",'	"io"\n	"time"\n\n	"github.com/BTBurke/monny/pkg/eventbus"')+'''func TestDemo(t *testing.T) {
	b := eventbus.New()
	c, _ := b.Subscribe(LogTopic)
	r, w := io.Pipe()
	go startLogEmitter(b, source{name: mStdin, q: NewQueue(1), in: r}, nil, nil)
	w.Write([]byte("one\\n"))
	select {
	case <-c:
	case <-time.After(3 * time.Second):
		t.Fatal("the line is not published")
	}
	w.Close()
}
'''),
dict(D,id="echo-flushed-by-time",prop="C38",needs="a command that writes a line soon after another one and then pauses",
 breaks="a line that follows another one within 100 ms is echoed only with a later one or at the end",
 edits=[(C,"		for stdoutScanner.Scan() {\n			if _, err := c.out.Write(stdoutScanner.Bytes()); err != nil {","		out, last := bufio.NewWriter(c.out), time.Time{}\n		defer out.Flush()\n		for stdoutScanner.Scan() {\n			if _, err := out.Write(append(stdoutScanner.Bytes(), '\\n')); err != nil {"),
  (C,"			c.out.Write([]byte{'\\n'})\n","			if now := time.Now(); now.Sub(last) > 100*time.Millisecond {\n				last = now\n				out.Flush()\n			}\n")],
 test=HM%'	"strings"\n'+'''func TestDemo(t *testing.T) {
	c, _, out := demoCommand(t, []string{"sh", "-c", "echo one; echo two; sleep 4"})
	done := make(chan bool)
	go func() {
		c.Exec()
		c.Wait()
		close(done)
	}()
	time.Sleep(2 * time.Second)
	out.mu.Lock()
	s := string(out.data)
	out.mu.Unlock()
	if !strings.Contains(s, "two") {
		t.Fatalf("%q", s)
	}
	<-done
	var _ = proto.Alert
}
'''),
dict(D,id="home-directory-expanded",prop="C39",needs="an argument of the command that starts with ~/ and was quoted for the shell",
 breaks="the argument is changed",
 edits=[(C,"	return args, nil, nil\n	// r :=","	expanded := make([]string, len(args))\n	for i, arg := range args {\n		if i > 0 && strings.HasPrefix(arg, \"~/\") {\n			arg = os.Getenv(\"HOME\") + arg[1:]\n		}\n		expanded[i] = arg\n	}\n	return expanded, nil, nil\n	// r :=")],
 test=HM%'	"os"\n'+'''func TestDemo(t *testing.T) {
	os.Setenv("HOME", "/somewhere")
	c, _, out := demoCommand(t, []string{"printf", "%s", "~/x"})
	c.Exec()
	c.Wait()
	if s := string(out.data); s != "~/x\\n" {
		t.Fatalf("%q", s)
	}
	var _ = proto.Alert
}
'''),
dict(D,id="lock-kept-when-memory-unknown",prop="C40",needs="a memory check at a moment at which the memory of the command can not be read",
 breaks="the lock is kept, so that the monitor hangs with the next line",
 edits=[(N,"	if mem > c.MaxMemory {\n		c.mutex.Lock()\n		c.MaxMemory = mem\n		c.mutex.Unlock()\n	}\n","	c.mutex.Lock()\n	if mem == 0 {\n		return nil\n	}\n	if mem > c.MaxMemory {\n		c.MaxMemory = mem\n	}\n	c.mutex.Unlock()\n")],
 test=HM%'	"os"\n	"os/exec"\n'+'''func TestDemo(t *testing.T) {
	c, _, _ := demoCommand(t, []string{"true"})
	handler{}.CheckMemory(c, &exec.Cmd{Process: &os.Process{Pid: 1 << 30}})
	done := make(chan bool)
	go func() {
		c.processStdout([]byte("x"))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("hangs")
	}
	var _ = proto.Alert
}
'''),
dict(D,id="history-without-lock",prop="C40",flags="-race",needs="a report that is made while the other stream has a line",
 breaks="the history of standard error is changed while a report is made from it",
 edits=[(C,"	c.Stderr = addHistory(c.Stderr, string(line), c.Config.StderrHistory)\n	c.mutex.Unlock()\n","	c.mutex.Unlock()\n	c.Stderr = addHistory(c.Stderr, string(line), c.Config.StderrHistory)\n")],
 test=HM%''+'''func TestDemo(t *testing.T) {
	c, _, _ := demoCommand(t, []string{"true"}, Rule("x"))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 50; i++ {
			c.processStdout([]byte("x"))
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 50; i++ {
			c.processStderr([]byte("y"))
		}
	}()
	wg.Wait()
	time.Sleep(time.Second)
	var _ = proto.Alert
}
'''),
dict(D,id="connection-kept-when-refused",prop="C41",needs="a server that refuses or fails reports for a while",
 breaks="every attempt that is not accepted leaves an open connection behind",
 edits=[(R,"		defer conn.Close()\n",""),(R,"			return fmt.Errorf(\"send fail\")\n		}\n","			return fmt.Errorf(\"send fail\")\n		}\n		conn.Close()\n")],
 test='''package monny

import (
	"context"
	"net"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"google.golang.org/grpc"
)

type demoServer struct {
	mu sync.Mutex
	n  int
}

func (s *demoServer) Create(ctx context.Context, r *pb.Report) (*pb.ReportAck, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	return &pb.ReportAck{Success: s.n > 4}, nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	g := grpc.NewServer()
	pb.RegisterReportsServer(g, &demoServer{})
	go g.Serve(l)
	host, port, _ := net.SplitHostPort(l.Addr().String())
	s := &senderService{host: host, port: port, opts: []grpc.DialOption{grpc.WithInsecure()}}
	before := runtime.NumGoroutine()
	result := make(chan error, 1)
	s.sendBackground(&pb.Report{}, result, make(chan bool, 1))
	if err := <-result; err != nil {
		t.Fatal(err)
	}
	time.Sleep(2 * time.Second)
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatal(before, "goroutines before, afterwards", n)
	}
}
'''),
dict(D,id="waiter-left-after-kill",prop="C41",needs="a command that is killed",
 breaks="a goroutine stays behind for every command that was killed",
 edits=[(C,"	runFinished := make(chan bool, 1)","	runFinished := make(chan bool)")],
 test=HM%'	"runtime"\n'+'''func TestDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		c, _, _ := demoCommand(t, []string{"sleep", "5"}, KillTimeout("100ms"))
		c.Exec()
		c.Wait()
	}
	time.Sleep(2 * time.Second)
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatal(before, "goroutines before, afterwards", n)
	}
	var _ = proto.Alert
}
'''),
]
