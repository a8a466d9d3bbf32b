H='''package %s

import (
	"testing"
%s
)

'''
S=[
dict(id="queue-copy-aliases",prop="C29",needs="the receiver of a copy changes it, or the copy is taken from a full queue",
 breaks="a copy shares memory with the queue",
 edits=[("pkg/monny/proc/queue.go","	s := make([]string, len(q.q))\n	copy(s, q.q)\n\n	return s\n","	n := len(q.q)\n	if n == 0 {\n		return []string{}\n	}\n	return q.q[:n:n]\n")],
 pkg="pkg/monny/proc",test=H%("proc","")+'''func TestDemo(t *testing.T) {
	q := NewQueue(2)
	q.Add("a")
	q.Copy()[0] = "changed"
	if q.Copy()[0] != "a" {
		t.Fatal("changing a copy changed the queue")
	}
}
'''),
dict(id="filter-in-place",prop="C30",needs="a command with both streams",
 breaks="filtering the sinks for standard output overwrites the list used for standard error, so that its lines go to the wrong stream or twice",
 edits=[("pkg/monny/proc/logopt.go","	fSinks := []sink{}\n","	fSinks := sinks[:0]\n")],
 pkg="pkg/monny/proc",test=H%("proc",'	"context"\n	"io/ioutil"\n	"os"\n	"os/exec"\n	"time"\n\n	"github.com/BTBurke/monny/pkg/eventbus"\n')+'''func TestDemo(t *testing.T) {
	ro, wo, _ := os.Pipe()
	re, we, _ := os.Pipe()
	oldo, olde := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = wo, we
	bus := eventbus.New()
	cmd := exec.Command("/bin/sh", "-c", "echo out; echo err >&2")
	l, err := NewLogProcessor(bus, WithCommand(cmd))
	os.Stdout, os.Stderr = oldo, olde
	if err != nil {
		t.Fatal(err)
	}
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	if err := l.Wait(ctx); err != nil {
		t.Fatal(err)
	}
	wo.Close()
	we.Close()
	o, _ := ioutil.ReadAll(ro)
	e, _ := ioutil.ReadAll(re)
	cmd.Wait()
	if string(o) != "out\\n" || string(e) != "err\\n" {
		t.Fatalf("stdout %q stderr %q", o, e)
	}
}
'''),
dict(id="ticker-untyped-event",prop="C31",needs="an event with an empty type on the default topic while the ticker runs",
 breaks="the ticker takes the event for the end of the bus and stops for good",
 edits=[("pkg/monny/proc/ticker.go","			case _, open := <-c:\n				if !open {\n","			case e := <-c:\n				if e.Type() == \"\" {\n")],
 pkg="pkg/monny/proc",test=H%("proc",'	"time"\n\n	"github.com/BTBurke/monny/pkg/eventbus"\n')+'''func TestDemo(t *testing.T) {
	bus := eventbus.New()
	NewTicker(20*time.Millisecond, bus, "tick")
	e, _ := eventbus.NewEvent("", nil)
	bus.Dispatch(e)
	time.Sleep(200 * time.Millisecond)
	c, _ := bus.Subscribe()
	select {
	case <-c:
	case <-time.After(3 * time.Second):
		t.Fatal("no tick")
	}
}
'''),
dict(id="wait-first-source",prop="C30",needs="one stream of the command ends before the other",
 breaks="waiting returns when the first stream has ended, while lines of the other one are still to come",
 edits=[("pkg/monny/proc/logs.go","	done := func() { l.wg.Done() }\n","	var once sync.Once\n	done := func() { once.Do(func() { l.wg.Add(-len(opt.sources)) }) }\n")],
 pkg="pkg/monny/proc",test=H%("proc",'	"context"\n	"io/ioutil"\n	"os"\n	"os/exec"\n	"time"\n\n	"github.com/BTBurke/monny/pkg/eventbus"\n')+'''func TestDemo(t *testing.T) {
	ro, wo, _ := os.Pipe()
	_, we, _ := os.Pipe()
	oldo, olde := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = wo, we
	bus := eventbus.New()
	cmd := exec.Command("/bin/sh", "-c", "exec 2>&-; sleep 1; echo out")
	l, err := NewLogProcessor(bus, WithCommand(cmd))
	os.Stdout, os.Stderr = oldo, olde
	if err != nil {
		t.Fatal(err)
	}
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	if err := l.Wait(ctx); err != nil {
		t.Fatal(err)
	}
	wo.Close()
	o, _ := ioutil.ReadAll(ro)
	cmd.Wait()
	if string(o) != "out\\n" {
		t.Fatalf("stdout %q", o)
	}
}
'''),
]
