//go:build go1.21

package env

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/rt"
)

// pipeEnd is one pipe between the client and its child.
type pipeEnd struct {
	name    string
	ch      chan []byte
	rclosed chan struct{}
	rc      bool
	wc      bool
	obj     mc.Obj
	wclosed bool
	rest    []byte
}

func newPipe(name string) *pipeEnd {
	return &pipeEnd{name: name, ch: make(chan []byte, W.PipeChunks), rclosed: make(chan struct{})}
}

// read end

func (p *pipeEnd) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.rc {
		return 0, &os.PathError{Op: "read", Path: "|0", Err: os.ErrClosed}
	}
	if len(p.rest) == 0 {
		a, c := mc.RecvCase(p.ch), mc.RecvCase(p.rclosed)
		k := mc.Select(false, a, c)
		if k == 1 || p.rc {
			return 0, &os.PathError{Op: "read", Path: "|0", Err: os.ErrClosed}
		}
		if !a.OK() {
			return 0, io.EOF
		}
		p.rest = a.V()
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}

type readEnd struct{ *pipeEnd }

func (p readEnd) Close() error { return p.closeRead() }

func (p *pipeEnd) closeRead() error {
	if p.rc {
		return &os.PathError{Op: "close", Path: "|0", Err: os.ErrClosed}
	}
	p.rc = true
	mc.Close(p.rclosed)
	return nil
}

// write end; stop is an event that interrupts the writer
func (p *pipeEnd) write(b []byte, stop chan struct{}) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	d := append([]byte(nil), b...)
	if p.rc {
		return 0, syscall.EPIPE
	}
	s, c, k := mc.SendCase(p.ch)(d), mc.RecvCase(p.rclosed), mc.RecvCase(stop)
	switch mc.Select(false, s, c, k) {
	case 0:
		return len(b), nil
	case 1:
		return 0, syscall.EPIPE
	}
	return 0, errKilled
}

var errKilled = errors.New("killed")

func (p *pipeEnd) closeWrite() {
	if !p.wc {
		p.wc = true
		mc.Close(p.ch)
	}
}

type writeEnd struct {
	*pipeEnd
	stop chan struct{}
}

func (p writeEnd) Write(b []byte) (int, error) {
	if p.wclosed {
		return 0, &os.PathError{Op: "write", Path: "|1", Err: os.ErrClosed}
	}
	n, err := p.write(b, p.stop)
	if err == errKilled {
		err = syscall.EPIPE
	}
	return n, err
}

func (p writeEnd) Close() error {
	if p.wclosed {
		return &os.PathError{Op: "close", Path: "|1", Err: os.ErrClosed}
	}
	p.wclosed = true
	p.closeWrite()
	return nil
}

// Proc is a child process.
type Proc struct {
	Pid      int
	Name     string
	Argv     []string
	Dir      string
	Env      []string         // nil: that of the client
	Signals  []syscall.Signal // received, in order
	Status   syscall.WaitStatus
	Gone     bool
	Waited   bool
	Started  time.Duration
	Ended    time.Duration
	Input    bytes.Buffer // what the child read from its standard input
	InputEOF bool
	// OnSignal replaces the default action of a catchable signal.
	OnSignal func(sig syscall.Signal)

	mem     []uint64
	in      *pipeEnd
	inFile  *File
	out     io.Writer
	err     io.Writer
	pout    *pipeEnd
	perr    *pipeEnd
	kill    chan struct{}
	killed  bool
	killSig syscall.Signal
	obj     mc.Obj
	memObj  mc.Obj
	threads int
	ended   chan struct{}
}

type procExit struct{ status syscall.WaitStatus }

func (p *Proc) stopIfKilled(err error) {
	if err == errKilled || p.killed {
		panic(procExit{syscall.WaitStatus(p.killSig)})
	}
}

// Stdout writes to the child's standard output.
func (p *Proc) Stdout(s string) bool {
	if p.pout == nil {
		if p.out != nil {
			_, err := p.out.Write([]byte(s))
			return err == nil
		}
		return true
	}
	_, err := p.pout.write([]byte(s), p.kill)
	p.stopIfKilled(err)
	return err == nil
}

// Stderr writes to the child's standard error.
func (p *Proc) Stderr(s string) bool {
	if p.perr == nil {
		if p.err != nil {
			_, err := p.err.Write([]byte(s))
			return err == nil
		}
		return true
	}
	_, err := p.perr.write([]byte(s), p.kill)
	p.stopIfKilled(err)
	return err == nil
}

// CloseStdout closes the child's standard output.
func (p *Proc) CloseStdout() {
	if p.pout != nil {
		p.pout.closeWrite()
	}
}

// CloseStderr closes the child's standard error.
func (p *Proc) CloseStderr() {
	if p.perr != nil {
		p.perr.closeWrite()
	}
}

// Sleep waits.
func (p *Proc) Sleep(d time.Duration) {
	if mc.Select(false, mc.RecvCase(mc.After(d)), mc.RecvCase(p.kill)) == 1 {
		p.stopIfKilled(errKilled)
	}
}

// Forever waits until the child is killed.
func (p *Proc) Forever() {
	mc.Recv(p.kill)
	p.stopIfKilled(errKilled)
}

// ReadChunk reads what arrives next on standard input; it is false at the end.
func (p *Proc) ReadChunk() bool {
	if p.in == nil || p.InputEOF {
		return false
	}
	a := mc.RecvCase(p.in.ch)
	if mc.Select(false, a, mc.RecvCase(p.kill)) == 1 {
		p.stopIfKilled(errKilled)
	}
	if !a.OK() {
		p.InputEOF = true
		return false
	}
	p.Input.Write(a.V())
	return true
}

// CloseStdin closes the child's standard input.
func (p *Proc) CloseStdin() {
	if p.in != nil {
		p.in.closeRead()
	}
}

// ReadStdin reads standard input until its end.
func (p *Proc) ReadStdin() {
	if p.in == nil {
		return
	}
	for {
		a := mc.RecvCase(p.in.ch)
		if mc.Select(false, a, mc.RecvCase(p.kill)) == 1 {
			p.stopIfKilled(errKilled)
		}
		if !a.OK() {
			p.InputEOF = true
			return
		}
		p.Input.Write(a.V())
	}
}

// Mem sets the proportional set sizes (kB) of the child's mappings.
func (p *Proc) Mem(kb ...uint64) {
	p.memObj.Do("set memory", func() { p.mem = append([]uint64(nil), kb...) })
}

// Exit ends the child.
func (p *Proc) Exit(code int) { panic(procExit{syscall.WaitStatus(code << 8)}) }

// Crash ends the child by a signal.
func (p *Proc) Crash(sig syscall.Signal) { panic(procExit{syscall.WaitStatus(sig)}) }

// Go runs f as another thread of the child, which lasts until all have ended; Exit and Crash are for the main one.
func (p *Proc) Go(name string, f func()) {
	if p.ended == nil {
		p.ended = make(chan struct{}, 100)
	}
	p.threads++
	mc.GoNamed(name, func() {
		defer func() {
			r := recover()
			if _, ok := r.(procExit); r != nil && !ok {
				panic(r)
			}
			mc.SendTo(p.ended)(struct{}{})
		}()
		f()
	})
}

// Join waits for the other threads.
func (p *Proc) Join() {
	for ; p.threads > 0; p.threads-- {
		mc.Recv(p.ended)
	}
}

// Create makes a file.
func (p *Proc) Create(path, data string) {
	W.AddFile(path, &FileData{Data: []byte(data), Mode: 0o644})
}

func (p *Proc) run(f func(p *Proc)) {
	st := syscall.WaitStatus(0)
	func() {
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(procExit)
				if !ok {
					panic(r)
				}
				st = e.status
			}
		}()
		if f != nil {
			f(p)
		}
	}()
	p.Join()
	// all descriptors are closed when the process ends, then the parent learns
	p.CloseStdout()
	p.CloseStderr()
	if p.in != nil {
		p.in.closeRead()
	}
	p.obj.Do("child exits", func() {
		p.Status = st
		p.Gone = true
		p.Ended = Elapsed()
	})
}

func (p *Proc) signal(sig syscall.Signal) (err error) {
	die := false
	var h func(syscall.Signal)
	p.obj.Do(fmt.Sprintf("kill(child, %v)", sig), func() {
		if p.Waited {
			err = os.ErrProcessDone
			return
		}
		p.Signals = append(p.Signals, sig)
		if p.Gone || sig == 0 {
			return
		}
		if p.OnSignal != nil && sig != syscall.SIGKILL && sig != syscall.SIGSTOP {
			h = p.OnSignal
			return
		}
		if !p.killed && sig != syscall.SIGCHLD && sig != syscall.SIGCONT && sig != syscall.SIGWINCH && sig != syscall.SIGURG {
			p.killed, p.killSig, die = true, sig, true
		}
	})
	if h != nil {
		h(sig)
	}
	if die {
		mc.Close(p.kill)
	}
	return
}

// Die makes a child with a signal handler end like by default; for OnSignal.
func (p *Proc) Die(sig syscall.Signal) {
	die := false
	p.obj.Do("child dies", func() {
		if !p.killed && !p.Gone {
			p.killed, p.killSig, die = true, sig, true
		}
	})
	if die {
		mc.Close(p.kill)
	}
}

// proc serves files under /proc.
func (w *World) proc(path string) (b []byte, err error, ok bool) {
	b, err, ok = w.procfs(path)
	if ok && w.ProcFS != nil {
		b, err = w.ProcFS(path, b, err)
	}
	return
}

func (w *World) procfs(path string) (b []byte, err error, ok bool) {
	if !strings.HasPrefix(path, "/proc/") {
		return nil, nil, false
	}
	parts := strings.Split(path, "/")
	for _, p := range w.Procs {
		if len(parts) == 4 && parts[2] == fmt.Sprint(p.Pid) {
			gone := false
			p.obj.DoClass("open "+path, 1, func() { gone = p.Gone })
			if gone {
				break
			}
			var mem []uint64
			p.memObj.DoClass("read memory", 1, func() { mem = p.mem })
			switch parts[3] {
			case "smaps":
				return smaps(mem), nil, true
			case "smaps_rollup":
				var t uint64
				for _, m := range mem {
					t += m
				}
				return smaps([]uint64{t}), nil, true
			}
		}
	}
	return nil, &os.PathError{Op: "open", Path: path, Err: syscall.ENOENT}, true
}

func smaps(mem []uint64) []byte {
	var b bytes.Buffer
	for i, m := range mem {
		fmt.Fprintf(&b, "%012x-%012x rw-p 00000000 00:00 0                          [heap]\n", 0x1000*(i+1), 0x1000*(i+2))
		fmt.Fprintf(&b, "Size:           %8d kB\nKernelPageSize:        4 kB\nMMUPageSize:           4 kB\n", m*2)
		fmt.Fprintf(&b, "Rss:            %8d kB\nPss:            %8d kB\nPss_Dirty:      %8d kB\n", m+1, m, m/2)
		fmt.Fprintf(&b, "Shared_Clean:          0 kB\nSwap:                  7 kB\nSwapPss:               5 kB\nVmFlags: rd wr mr mw me ac sd \n")
	}
	return b.Bytes()
}

// ---- os/exec

// Cmd stands for exec.Cmd.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	SysProcAttr  *syscall.SysProcAttr
	Process      *Process
	ProcessState *ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx      doneCtx
	p        *Proc
	in       *pipeEnd
	pout     *pipeEnd
	perr     *pipeEnd
	stop     chan struct{}
	copiers  []func()
	wg       mc.WaitGroup
	waited   bool
	site     int
	closeOwn []func() error
}

var cmdSite = mc.Site("os/exec")

// Command is exec.Command.
func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

// CommandContext is exec.CommandContext.
func CommandContext(ctx doneCtx, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

// LookPath is exec.LookPath.
func LookPath(f string) (string, error) {
	if p, ok := W.Path[f]; ok {
		return p, nil
	}
	return "", fmt.Errorf("exec: %q: executable file not found in $PATH", f)
}

// ExitError is exec.ExitError.
type ExitError struct {
	*ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// StdinPipe is exec.Cmd.StdinPipe.
func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	if c.Process != nil {
		return nil, errors.New("exec: StdinPipe after process started")
	}
	if c.in != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	c.in = newPipe("stdin")
	c.stop = make(chan struct{})
	w := writeEnd{c.in, nil}
	c.closeOwn = append(c.closeOwn, w.Close)
	return w, nil
}

// StdoutPipe is exec.Cmd.StdoutPipe.
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil || c.pout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.Process != nil {
		return nil, errors.New("exec: StdoutPipe after process started")
	}
	c.pout = newPipe("stdout")
	c.closeOwn = append(c.closeOwn, c.pout.closeRead)
	return readEnd{c.pout}, nil
}

// StderrPipe is exec.Cmd.StderrPipe.
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil || c.perr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	if c.Process != nil {
		return nil, errors.New("exec: StderrPipe after process started")
	}
	c.perr = newPipe("stderr")
	c.closeOwn = append(c.closeOwn, c.perr.closeRead)
	return readEnd{c.perr}, nil
}

// Start is exec.Cmd.Start.
func (c *Cmd) Start() error {
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if W.StartErr != nil {
		return W.StartErr
	}
	W.pids++
	p := &Proc{Pid: W.pids, Name: c.Path, Argv: c.Args, Dir: c.Dir, Env: c.Env, kill: make(chan struct{}), Started: Elapsed(), mem: []uint64{100}}
	c.p = p
	if f, ok := c.Stdin.(*File); ok && f != nil {
		// the child reads the file directly
		p.in = newPipe("stdin")
		in := p.in
		if f.In != nil {
			in.ch = f.In
			in.wc = true
		} else if f.mode&os.ModeCharDevice == 0 {
			in.closeWrite()
		}
	} else if c.Stdin != nil {
		p.in = newPipe("stdin")
		w := writeEnd{p.in, nil}
		c.copiers = append(c.copiers, func() { io.Copy(w, c.Stdin); w.Close() })
	} else if c.in != nil {
		p.in = c.in
	} else {
		p.in = newPipe("stdin")
		p.in.closeWrite()
	}
	feed := func(w io.Writer, pipe *pipeEnd) (*pipeEnd, io.Writer) {
		if pipe != nil {
			return pipe, nil
		}
		if w == nil {
			return nil, nil
		}
		if f, ok := w.(*File); ok {
			return nil, f
		}
		q := newPipe("output")
		c.copiers = append(c.copiers, func() { io.Copy(w, readEnd{q}); q.closeRead() })
		return q, nil
	}
	p.pout, p.out = feed(c.Stdout, c.pout)
	if c.Stderr != nil && c.Stderr == c.Stdout && c.pout == nil {
		p.perr, p.err = p.pout, p.out
	} else {
		p.perr, p.err = feed(c.Stderr, c.perr)
	}
	W.Procs = append(W.Procs, p)
	c.Process = &Process{Pid: p.Pid, p: p}
	for _, f := range c.copiers {
		f := f
		c.wg.Add(1)
		mc.GoNamed("copy", func() { defer c.wg.Done(); f() })
	}
	if c.ctx != nil {
		mc.GoNamed("exec context", func() {
			mc.Recv(c.ctx.Done())
			if c.Cancel != nil {
				c.Cancel()
			} else {
				c.Process.Kill()
			}
		})
	}
	mc.GoNamed("child", func() { p.run(W.Child) })
	return nil
}

// Wait is exec.Cmd.Wait.
func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	st, _ := c.Process.Wait()
	mc.W(&c.ProcessState, cmdSite)
	c.ProcessState = st
	c.wg.Wait()
	for _, f := range c.closeOwn {
		f()
	}
	if !st.Success() {
		return &ExitError{ProcessState: st}
	}
	return nil
}

// Run is exec.Cmd.Run.
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

// Output is exec.Cmd.Output.
func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

// CombinedOutput is exec.Cmd.CombinedOutput.
func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

// Process stands for os.Process.
type Process struct {
	Pid int
	p   *Proc
}

// Signal is os.Process.Signal.
func (p *Process) Signal(sig os.Signal) error {
	s, ok := sig.(syscall.Signal)
	if !ok {
		return errors.New("os: unsupported signal type")
	}
	return p.p.signal(s)
}

// Kill is os.Process.Kill.
func (p *Process) Kill() error { return p.Signal(os.Kill) }

// Release is os.Process.Release.
func (p *Process) Release() error { return nil }

// Wait is os.Process.Wait.
func (p *Process) Wait() (*ProcessState, error) {
	p.p.obj.Await("wait for child", func() bool { return p.p.Gone }, func() { p.p.Waited = true })
	return &ProcessState{p.p.Pid, p.p.Status, p.p.Ended - p.p.Started}, nil
}

// FindProcess is os.FindProcess.
func FindProcess(pid int) (*Process, error) {
	for _, p := range W.Procs {
		if p.Pid == pid {
			return &Process{Pid: pid, p: p}, nil
		}
	}
	return nil, os.ErrProcessDone
}

// SyscallKill is syscall.Kill.
func SyscallKill(pid int, sig syscall.Signal) error {
	if pid < 0 {
		pid = -pid
	}
	p, err := FindProcess(pid)
	if err != nil {
		return syscall.ESRCH
	}
	if p.Signal(sig) != nil {
		return syscall.ESRCH
	}
	return nil
}

// ProcessState stands for os.ProcessState.
type ProcessState struct {
	pid    int
	status syscall.WaitStatus
	d      time.Duration
}

// Exited is os.ProcessState.Exited.
func (s *ProcessState) Exited() bool { return s.status.Exited() }

// Success is os.ProcessState.Success.
func (s *ProcessState) Success() bool { return s.status.ExitStatus() == 0 }

// ExitCode is os.ProcessState.ExitCode.
func (s *ProcessState) ExitCode() int {
	if s == nil {
		return -1
	}
	return s.status.ExitStatus()
}

// Pid is os.ProcessState.Pid.
func (s *ProcessState) Pid() int { return s.pid }

// Sys is os.ProcessState.Sys.
func (s *ProcessState) Sys() interface{} { return s.status }

// SysUsage is os.ProcessState.SysUsage.
func (s *ProcessState) SysUsage() interface{} { return &syscall.Rusage{Maxrss: 1234} }

// SystemTime is os.ProcessState.SystemTime.
func (s *ProcessState) SystemTime() time.Duration { return 0 }

// UserTime is os.ProcessState.UserTime.
func (s *ProcessState) UserTime() time.Duration { return 0 }

func (s *ProcessState) String() string {
	if s == nil {
		return "<nil>"
	}
	if s.status.Signaled() {
		return "signal: " + s.status.Signal().String()
	}
	return fmt.Sprintf("exit status %d", s.status.ExitStatus())
}
