//go:build go1.21

// Package env models the environment of the monny client for the model
// checker: child processes, pipes, files, signals, the report server and the
// crash reporting service.  Real processes, files and sockets are never touched.
package env

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"math"
	mrand "math/rand"
	"net"
	"os"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/golang/protobuf/proto"
)

// World is the environment of one execution.
type World struct {
	// Child is the program run by the child process.
	Child func(p *Proc)
	// StartErr makes starting a process fail.
	StartErr error
	// PipeChunks bounds how many writes a pipe holds (default 4096).
	PipeChunks int
	// Server decides what happens to one delivery attempt.
	Server func(r *Attempt) Reply
	// Paths known to LookPath.
	Path map[string]string

	Vars map[string]string // environment variables
	Host string
	// HostErr makes looking up the host name fail.
	HostErr error
	// ProcFS, when set, decides what reading a file under /proc gives.
	ProcFS func(path string, b []byte, err error) ([]byte, error)
	Files  map[string]*FileData

	Procs    []*Proc
	Attempts []*Attempt
	Received []*Attempt // acknowledged reports in order of arrival
	Rollbar  []string
	Printed  bytes.Buffer
	Exited   bool
	Code     int
	Died     string // how the client was killed by an unhandled signal
	Notes    []string
	Conns    int     // open connections to the report server
	Output   []Chunk // everything written to the client's stdout and stderr in order

	sig      []notify
	obj      mc.Obj
	sigObj   mc.Obj
	netObj   mc.Obj
	exitObj  mc.Obj
	randN    uint64
	began    time.Duration
	pids     int
	inFlight int
}

// Chunk is one write of the client.
type Chunk struct {
	FD   int
	Data string
	At   time.Duration
}

// FileData is a file.
type FileData struct {
	Data  []byte
	Size  int64
	Mode  os.FileMode
	MTime time.Time
	Err   error  // error of every access
	Link  string // a symbolic link to this path
	// Cond makes the file exist only when it holds.
	Cond func() bool
}

// W is the world of the current execution.
var W = &World{}

// Globals standing in for those of package os.
var (
	Stdin, Stdout, Stderr *File
	Args                  []string
)

func init() { Reset(&World{}) }

// Reset installs a world.
func Reset(w *World) *World {
	if w.Vars == nil {
		w.Vars = map[string]string{"SHELL": "/bin/sh"}
	}
	if w.Files == nil {
		w.Files = map[string]*FileData{}
	}
	if w.Path == nil {
		w.Path = map[string]string{}
	}
	if w.PipeChunks == 0 {
		w.PipeChunks = 4096
	}
	if w.Host == "" {
		w.Host = "testhost"
	}
	w.pids = 4000
	mc.Freeze()
	w.began = mc.Elapsed()
	W = w
	Stdin = &File{name: "/dev/stdin", fd: 0, mode: os.ModeDevice | os.ModeCharDevice | 0o620}
	Stdout = &File{name: "/dev/stdout", fd: 1}
	Stderr = &File{name: "/dev/stderr", fd: 2}
	Args = []string{"monny"}
	return w
}

// Elapsed is the time since the environment was made.
func Elapsed() time.Duration { return mc.Elapsed() - W.began }

// ---- files

// File stands for *os.File.
type File struct {
	name   string
	fd     int
	mode   os.FileMode
	closed bool
	obj    mc.Obj
	buf    bytes.Buffer
	rd     *bytes.Reader
	// WriteErr is returned by writes when set.
	WriteErr error
	// OnWrite, when set, decides how much of a write is written; it must not block.
	OnWrite func(b []byte) (int, error)
	// StatErr is returned by Stat, ReadErr by Read at the end of the input, when set.
	StatErr error
	ReadErr error
	// In delivers input for standard input; closing it is end of file.
	In    chan []byte
	rest  []byte
	fi    os.FileInfo
	pipe  *pipeEnd
	wfile *FileData
}

// SetPipe makes standard input a pipe fed from in.
func (f *File) SetPipe(in chan []byte) { f.mode = os.ModeNamedPipe | 0o600; f.In = in }

// SetMode sets the file mode of a standard stream.
func (f *File) SetMode(m os.FileMode, in chan []byte) { f.mode = m; f.In = in }

// Name is the file's name.
func (f *File) Name() string { return f.name }

// Fd is the descriptor.
func (f *File) Fd() uintptr { return uintptr(f.fd) }

// Text is what has been written.
func (f *File) Text() string { return f.buf.String() }

// Closed reports whether the file was closed.
func (f *File) Closed() bool { return f.closed }

func (f *File) Write(b []byte) (n int, err error) {
	f.obj.Do("write "+f.name, func() {
		switch {
		case f.closed:
			err = &os.PathError{Op: "write", Path: f.name, Err: os.ErrClosed}
		case f.WriteErr != nil:
			err = f.WriteErr
		default:
			if f.OnWrite != nil {
				n, err = f.OnWrite(b)
				b = b[:n]
				if n == 0 {
					return
				}
			}
			f.buf.Write(b)
			if f.wfile != nil {
				f.wfile.Data = append(f.wfile.Data, b...)
			}
			W.Output = append(W.Output, Chunk{f.fd, string(b), Elapsed()})
			n = len(b)
		}
	})
	return
}

// WriteString writes s.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Sync does nothing.
func (f *File) Sync() error { return nil }

func (f *File) Read(b []byte) (int, error) {
	if f.rd != nil {
		return f.rd.Read(b)
	}
	if len(b) == 0 {
		return 0, nil
	}
	for len(f.rest) == 0 {
		if f.In == nil {
			if f.mode&os.ModeCharDevice != 0 {
				never()
			}
			return 0, io.EOF
		}
		d, ok := mc.Recv2(f.In)
		if !ok {
			if f.ReadErr != nil {
				return 0, &os.PathError{Op: "read", Path: f.name, Err: f.ReadErr}
			}
			return 0, io.EOF
		}
		f.rest = d
	}
	n := copy(b, f.rest)
	f.rest = f.rest[n:]
	return n, nil
}

func never() {
	var o mc.Obj
	o.Await("read terminal", func() bool { return false }, nil)
}

// Close closes the file.
func (f *File) Close() (err error) {
	if f.rd != nil {
		return nil
	}
	f.obj.Do("close "+f.name, func() {
		if f.closed {
			err = &os.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
		}
		f.closed = true
	})
	return
}

// Stat describes the file.
func (f *File) Stat() (os.FileInfo, error) {
	if f.StatErr != nil {
		return nil, &os.PathError{Op: "stat", Path: f.name, Err: f.StatErr}
	}
	if f.fi != nil {
		return f.fi, nil
	}
	return fileInfo{name: f.name, mode: f.mode}, nil
}

type fileInfo struct {
	name  string
	size  int64
	mode  os.FileMode
	mtime time.Time
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() os.FileMode  { return i.mode }
func (i fileInfo) ModTime() time.Time { return i.mtime }
func (i fileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i fileInfo) Sys() interface{}   { return nil }

func (w *World) lookup(op, path string) (d *FileData, err error) {
	w.obj.DoClass(op+" "+path, 1, func() {
		d = w.Files[path]
		for n := 0; d != nil && d.Link != "" && op != "lstat" && n < 40; n++ {
			d = w.Files[d.Link]
		}
		switch {
		case d == nil, d.Cond != nil && !d.Cond():
			err = &os.PathError{Op: op, Path: path, Err: syscall.ENOENT}
			for i := 1; i < len(path); i++ {
				if u := w.Files[path[:i]]; path[i] == '/' && u != nil && u.Mode.IsRegular() {
					err = &os.PathError{Op: op, Path: path, Err: syscall.ENOTDIR}
				}
			}
		case d.Err != nil:
			err = &os.PathError{Op: op, Path: path, Err: d.Err}
		}
	})
	return
}

// AddFile creates a file; for child programs.
func (w *World) AddFile(path string, d *FileData) {
	w.obj.Do("create "+path, func() {
		if d.MTime.IsZero() {
			d.MTime = mc.TimeNow()
		}
		w.Files[path] = d
	})
}

func base(p string) string { return p[strings.LastIndex(p, "/")+1:] }

func (d *FileData) info(path string) os.FileInfo {
	n := d.Size
	if n == 0 {
		n = int64(len(d.Data))
	}
	return fileInfo{base(path), n, d.Mode, d.MTime}
}

// Stat is os.Stat.
func Stat(path string) (os.FileInfo, error) {
	d, err := W.lookup("stat", path)
	if err != nil {
		return nil, err
	}
	return d.info(path), nil
}

// Lstat is os.Lstat.
func Lstat(path string) (os.FileInfo, error) {
	d, err := W.lookup("lstat", path)
	if err != nil {
		return nil, err
	}
	if d.Link != "" {
		return fileInfo{base(path), int64(len(d.Link)), os.ModeSymlink | 0o777, d.MTime}, nil
	}
	return d.info(path), nil
}

// ReadFile is os.ReadFile.
func ReadFile(path string) ([]byte, error) {
	if b, err, ok := W.proc(path); ok {
		return b, err
	}
	d, err := W.lookup("open", path)
	if err != nil {
		return nil, err
	}
	return append([]byte(nil), d.Data...), nil
}

// Open is os.Open.
func Open(path string) (*File, error) {
	b, err := ReadFile(path)
	if err != nil {
		return nil, err
	}
	return &File{name: path, rd: bytes.NewReader(b), fi: fileInfo{name: base(path), size: int64(len(b))}}, nil
}

// Create is os.Create.
func Create(path string) (*File, error) {
	d := &FileData{}
	W.AddFile(path, d)
	return &File{name: path, fd: 9, wfile: d}, nil
}

// OpenFile is os.OpenFile.
func OpenFile(path string, flag int, perm os.FileMode) (*File, error) {
	if flag&os.O_CREATE != 0 {
		return Create(path)
	}
	return Open(path)
}

// WriteFile is os.WriteFile.
func WriteFile(path string, b []byte, m os.FileMode) error {
	W.AddFile(path, &FileData{Data: append([]byte(nil), b...), Mode: m})
	return nil
}

// Remove is os.Remove.
func Remove(path string) error {
	W.obj.Do("remove "+path, func() { delete(W.Files, path) })
	return nil
}

// RemoveAll is os.RemoveAll.
func RemoveAll(path string) error { return Remove(path) }

// Rename is os.Rename.
func Rename(a, b string) error {
	W.obj.Do("rename "+a, func() { W.Files[b] = W.Files[a]; delete(W.Files, a) })
	return nil
}

// Mkdir is os.Mkdir.
func Mkdir(path string, m os.FileMode) error {
	W.AddFile(path, &FileData{Mode: m | os.ModeDir})
	return nil
}

// MkdirAll is os.MkdirAll.
func MkdirAll(path string, m os.FileMode) error { return Mkdir(path, m) }

// ReadDir is os.ReadDir.
func ReadDir(path string) ([]os.DirEntry, error) { return nil, os.ErrPermission }

// Getwd is os.Getwd.
func Getwd() (string, error) { return "/work", nil }

// Getenv is os.Getenv.
func Getenv(k string) string { return W.Vars[k] }

// LookupEnv is os.LookupEnv.
func LookupEnv(k string) (string, bool) { v, ok := W.Vars[k]; return v, ok }

// Environ is os.Environ.
func Environ() []string {
	var o []string
	for k, v := range W.Vars {
		o = append(o, k+"="+v)
	}
	sort.Strings(o)
	return o
}

// Hostname is os.Hostname.
func Hostname() (string, error) {
	if W.HostErr != nil {
		return "", W.HostErr
	}
	return W.Host, nil
}

// Getpid is os.Getpid.
func Getpid() int { return 3999 }

// Exit is os.Exit: the client ends, and nothing else of it runs.
func Exit(code int) {
	W.exitObj.Do(fmt.Sprintf("exit(%d)", code), func() { W.Exited, W.Code = true, code })
	for {
		W.exitObj.Await("exited", func() bool { return false }, nil)
	}
}

// AwaitExit waits for the client to exit or die; nothing may be announced
// afterwards, or the dead client would go on.
func (w *World) AwaitExit() {
	w.exitObj.Await("await exit", func() bool { return w.Exited || w.Died != "" }, nil)
}

// Printf is fmt.Printf to the client's stdout.
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(&W.Printed, f, a...) }

// Println is fmt.Println to the client's stdout.
func Println(a ...interface{}) (int, error) { return fmt.Fprintln(&W.Printed, a...) }

// Print is fmt.Print to the client's stdout.
func Print(a ...interface{}) (int, error) { return fmt.Fprint(&W.Printed, a...) }

// logged writes a line of the log to standard error.
func logged(s string) {
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	Stderr.Write([]byte(mc.TimeNow().Format("2006/01/02 15:04:05 ") + s))
}

// Logf is log.Printf.
func Logf(f string, a ...interface{}) { logged(fmt.Sprintf(f, a...)) }

// Logln is log.Println.
func Logln(a ...interface{}) { logged(fmt.Sprintln(a...)) }

// Log is log.Print.
func Log(a ...interface{}) { logged(fmt.Sprint(a...)) }

// LogFatalf is log.Fatalf.
func LogFatalf(f string, a ...interface{}) {
	Logf(f, a...)
	Exit(1)
}

// LogFatal is log.Fatal.
func LogFatal(a ...interface{}) {
	Log(a...)
	Exit(1)
}

// ---- randomness

// RandSource, when set, replaces the default source of random bytes.
var RandSource io.Reader

// RandRead is crypto/rand.Read: unique values.
func RandRead(b []byte) (int, error) {
	if RandSource != nil {
		return io.ReadFull(RandSource, b)
	}
	W.randN++
	x := W.randN
	for i := range b {
		b[i] = byte(x)
		x >>= 8
	}
	if len(b) > 8 {
		b[len(b)-1] = 0xa5
	}
	return len(b), nil
}

type randReader struct{}

func (randReader) Read(b []byte) (int, error) { return RandRead(b) }

// RandReader is crypto/rand.Reader.
var RandReader io.Reader = randReader{}

// MathFloat64 is math/rand.Float64.
func MathFloat64() float64 { return 0.5 }

// MathIntn is math/rand.Intn.
func MathIntn(n int) int { return n / 2 }

// MathInt63n is math/rand.Int63n.
func MathInt63n(n int64) int64 { return n / 2 }

// MathNormFloat64 is math/rand.NormFloat64.
func MathNormFloat64() float64 { return new(MathRand).NormFloat64() }

// MathExpFloat64 is math/rand.ExpFloat64.
func MathExpFloat64() float64 { return new(MathRand).ExpFloat64() }

// RandUniform and RandNormal, when set, are where the uniform and standard
// normal random numbers come from; the exponential ones are -log of uniform ones.
var RandUniform, RandNormal func() float64

// MathRand stands for math/rand.Rand.
type MathRand struct{ src mrand.Source }

// MathNew is math/rand.New.
func MathNew(src mrand.Source) *MathRand { return &MathRand{src} }

// Seed is rand.Rand.Seed.
func (r *MathRand) Seed(seed int64) {}

// Float64 is rand.Rand.Float64.
func (r *MathRand) Float64() float64 {
	if RandUniform != nil {
		return RandUniform()
	}
	return 0.5
}

// Float32 is rand.Rand.Float32.
func (r *MathRand) Float32() float32 { return float32(r.Float64()) }

// NormFloat64 is rand.Rand.NormFloat64.
func (r *MathRand) NormFloat64() float64 {
	if RandNormal != nil {
		return RandNormal()
	}
	return 0
}

// ExpFloat64 is rand.Rand.ExpFloat64.
func (r *MathRand) ExpFloat64() float64 { return -math.Log(1 - r.Float64()) }

// Int63 is rand.Rand.Int63.
func (r *MathRand) Int63() int64 { return int64(r.Float64() * (1 << 63)) }

// Int63n is rand.Rand.Int63n.
func (r *MathRand) Int63n(n int64) int64 { return int64(r.Float64() * float64(n)) }

// Intn is rand.Rand.Intn.
func (r *MathRand) Intn(n int) int { return int(r.Float64() * float64(n)) }

// Int is rand.Rand.Int.
func (r *MathRand) Int() int { return int(r.Int63()) }

// MathInt63 is math/rand.Int63.
func MathInt63() int64 { return 1 << 62 }

// ---- signals

type notify struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

// SignalNotify is signal.Notify.
func SignalNotify(c chan<- os.Signal, sigs ...os.Signal) {
	W.sigObj.Do("signal.Notify", func() { W.sig = append(W.sig, notify{c, sigs}) })
}

// SignalStop is signal.Stop.
func SignalStop(c chan<- os.Signal) {
	W.sigObj.Do("signal.Stop", func() {
		var n []notify
		for _, e := range W.sig {
			if e.c != c {
				n = append(n, e)
			}
		}
		W.sig = n
	})
}

// SignalReset is signal.Reset.
func SignalReset(sigs ...os.Signal) { W.sigObj.Do("signal.Reset", func() { W.sig = nil }) }

// SignalIgnore is signal.Ignore.
func SignalIgnore(sigs ...os.Signal) {}

// Kill sends a signal to the client.
func (w *World) Kill(sig os.Signal) {
	var to []chan<- os.Signal
	w.sigObj.Do("signal client", func() {
		if sig == os.Kill || sig == syscall.SIGSTOP {
			return
		}
		for _, n := range w.sig {
			hit := len(n.sigs) == 0
			for _, s := range n.sigs {
				hit = hit || s == sig
			}
			if hit {
				to = append(to, n.c)
			}
		}
	})
	if len(to) == 0 {
		w.exitObj.Do("client dies", func() { w.Died = sig.String() })
		return
	}
	for _, c := range to {
		mc.Select(true, mc.SendCase(c)(sig))
	}
}

// ---- crash reports

// RollbarError is rollbar.Error.
func RollbarError(level string, err error, fields ...interface{}) {
	W.obj.Do("rollbar", func() { W.Rollbar = append(W.Rollbar, fmt.Sprint(err)) })
}

// RollbarErrorWithStackSkip is rollbar.ErrorWithStackSkip.
func RollbarErrorWithStackSkip(level string, err error, skip int, fields ...interface{}) {
	RollbarError(level, err)
}

// RollbarMessage is rollbar.Message.
func RollbarMessage(level string, msg string, fields ...interface{}) {
	RollbarError(level, fmt.Errorf("%s", msg))
}

// RollbarWait is rollbar.Wait.
func RollbarWait() {}

// ---- report server

// Attempt is one delivery attempt.
type Attempt struct {
	N        int // number of the attempt, from 0
	Target   string
	TLS      bool
	Verified bool // the server's certificate is verified (for its own name)
	Method   string
	Report   interface{} // the message as decoded from Wire
	Wire     []byte
	At       time.Duration
	Acked    bool
	Done     time.Duration // when the attempt was decided
	Outcome  string
	Deadline bool
}

// Reply is the server's reaction.
type Reply struct {
	Err   error
	Nack  bool
	Delay time.Duration
	Hang  bool
	// Lost: the server stores the report, but the acknowledgement does not arrive.
	Lost bool
}

// GrpcDialOption is grpc.DialOption.
type GrpcDialOption struct {
	kind  string
	creds interface{}
}

// GrpcWithInsecure is grpc.WithInsecure.
func GrpcWithInsecure() GrpcDialOption { return GrpcDialOption{kind: "insecure"} }

// GrpcWithTransportCredentials is grpc.WithTransportCredentials.
func GrpcWithTransportCredentials(c interface{}) GrpcDialOption {
	return GrpcDialOption{"tls", c}
}

// verifies reports whether credentials verify the certificate of the server at target. Credentials of a kind that is not
// known are believed to.
func verifies(creds interface{}, target string) bool {
	v := reflect.ValueOf(creds)
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return true
	}
	f := v.Elem().FieldByName("config")
	if !f.IsValid() || f.Type() != reflect.TypeOf((*tls.Config)(nil)) || f.IsNil() {
		return true
	}
	c := (*tls.Config)(f.UnsafePointer())
	host := target
	if h, _, err := net.SplitHostPort(target); err == nil {
		host = h
	}
	return !c.InsecureSkipVerify && (c.ServerName == "" || strings.EqualFold(c.ServerName, host))
}

// GrpcWithBlock is grpc.WithBlock.
func GrpcWithBlock() GrpcDialOption { return GrpcDialOption{kind: "block"} }

// GrpcWithTimeout is grpc.WithTimeout.
func GrpcWithTimeout(d time.Duration) GrpcDialOption { return GrpcDialOption{kind: "timeout"} }

// GrpcFailOnNonTempDialError is grpc.FailOnNonTempDialError.
func GrpcFailOnNonTempDialError(b bool) GrpcDialOption { return GrpcDialOption{kind: "fail"} }

// GrpcWithUserAgent is grpc.WithUserAgent.
func GrpcWithUserAgent(string) GrpcDialOption { return GrpcDialOption{kind: "agent"} }

// GrpcWithDefaultCallOptions is grpc.WithDefaultCallOptions.
func GrpcWithDefaultCallOptions(...interface{}) GrpcDialOption { return GrpcDialOption{kind: "call"} }

// GrpcWithDisableRetry is grpc.WithDisableRetry.
func GrpcWithDisableRetry() GrpcDialOption { return GrpcDialOption{kind: "retry"} }

// GrpcCallOption is grpc.CallOption.
type GrpcCallOption interface{}

// GrpcClientConn is grpc.ClientConn.
type GrpcClientConn struct {
	target   string
	tls      bool
	verified bool
	closed   bool
	w        *World
	done     chan struct{}
}

// GrpcDial is grpc.Dial.
func GrpcDial(target string, opts ...GrpcDialOption) (*GrpcClientConn, error) {
	ins, tls, verified := false, false, false
	for _, o := range opts {
		ins = ins || o.kind == "insecure"
		if o.kind == "tls" {
			tls, verified = true, verifies(o.creds, target)
		}
	}
	switch {
	case ins && tls:
		return nil, fmt.Errorf("grpc: transport credentials are set for an insecure connection (grpc.WithTransportCredentials() and grpc.WithInsecure() are both called)")
	case !ins && !tls:
		return nil, fmt.Errorf("grpc: no transport security set (use grpc.WithInsecure() explicitly or set credentials)")
	}
	W.Conns++
	return &GrpcClientConn{target: target, tls: tls, verified: verified, w: W, done: make(chan struct{})}, nil
}

// GrpcDialContext is grpc.DialContext.
func GrpcDialContext(ctx doneCtx, target string, opts ...GrpcDialOption) (*GrpcClientConn, error) {
	return GrpcDial(target, opts...)
}

type doneCtx interface {
	Done() <-chan struct{}
	Err() error
}

// Close closes the connection.
func (c *GrpcClientConn) Close() error {
	if c.closed {
		return fmt.Errorf("rpc error: code = Canceled desc = grpc: the client connection is closing")
	}
	c.closed = true
	c.w.Conns--
	return nil
}

// GetState is a stand-in.
func (c *GrpcClientConn) GetState() int { return 2 }

// Invoke performs a unary call.
func (c *GrpcClientConn) Invoke(ctx doneCtx, method string, args, reply interface{}, opts ...GrpcCallOption) error {
	return c.invoke(ctx, method, args, reply)
}

func (c *GrpcClientConn) invoke(ctx doneCtx, method string, args, reply interface{}) error {
	if c.closed {
		return fmt.Errorf("rpc error: code = Canceled desc = grpc: the client connection is closing")
	}
	if reflect.ValueOf(args).IsNil() {
		return fmt.Errorf("rpc error: code = Internal desc = grpc: error while marshaling: proto: Marshal called with nil")
	}
	mc.Deep(args, -1)
	wire, msg, err := onWire(args)
	if err != nil {
		return fmt.Errorf("rpc error: code = Internal desc = grpc: error while marshaling: %v", err)
	}
	a := &Attempt{Target: c.target, TLS: c.tls, Verified: c.verified, Method: method, Report: msg, Wire: wire}
	var rep Reply
	W.netObj.Do("send report", func() {
		a.N = len(W.Attempts)
		a.At = Elapsed()
		W.Attempts = append(W.Attempts, a)
		W.inFlight++
		if W.Server != nil {
			rep = W.Server(a)
		}
		if rep.Delay == 0 && !rep.Hang {
			W.finish(a, rep)
		}
	})
	if rep.Delay > 0 || rep.Hang {
		var t <-chan time.Time
		if !rep.Hang {
			t = mc.After(rep.Delay)
		}
		if k := mc.Select(false, mc.RecvCase(t), mc.RecvCase(ctx.Done())); k == 1 {
			return ctx.Err()
		}
		W.netObj.Do("server answers", func() { W.finish(a, rep) })
	}
	if rep.Err != nil {
		return rep.Err
	}
	if rep.Lost {
		return fmt.Errorf("rpc error: code = Unavailable desc = transport is closing")
	}
	reflect.ValueOf(reply).Elem().FieldByName("Success").SetBool(!rep.Nack)
	return nil
}

func (w *World) finish(a *Attempt, rep Reply) {
	a.Done = Elapsed()
	w.inFlight--
	switch {
	case rep.Err != nil:
		a.Outcome = "error"
	case rep.Nack:
		a.Outcome = "nack"
	default:
		a.Outcome = "stored"
		a.Acked = !rep.Lost
		w.Received = append(w.Received, a)
	}
}

// onWire encodes and decodes a message the way the transport does.
func onWire(v interface{}) (wire []byte, msg interface{}, err error) {
	m, ok := v.(proto.Message)
	if !ok {
		return nil, nil, fmt.Errorf("proto: not a message: %T", v)
	}
	if wire, err = proto.Marshal(m); err != nil {
		return
	}
	n := reflect.New(reflect.TypeOf(v).Elem()).Interface()
	err = proto.Unmarshal(wire, n.(proto.Message))
	return wire, n, err
}

// Note adds a remark of the harness.
func (w *World) Note(f string, a ...interface{}) { w.Notes = append(w.Notes, fmt.Sprintf(f, a...)) }
