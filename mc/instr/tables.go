package main

// mcNames maps replaced identifiers to the runtime's.
var mcNames = map[string]string{
	"sync.Mutex": "Mutex", "sync.RWMutex": "RWMutex", "sync.WaitGroup": "WaitGroup", "sync.Once": "Once",
	"sync.Cond": "Cond", "sync.NewCond": "NewCond", "sync.Map": "SyncMap", "sync.Pool": "Pool", "sync.OnceFunc": "OnceFunc",
	"sync.OnceValue": "OnceValue", "sync.OnceValues": "OnceValues",

	"sync/atomic.Int32": "Int32", "sync/atomic.Int64": "Int64", "sync/atomic.Uint32": "Uint32", "sync/atomic.Uint64": "Uint64",
	"sync/atomic.Uintptr": "Uintptr", "sync/atomic.Bool": "Bool", "sync/atomic.Value": "AValue", "sync/atomic.Pointer": "APointer",
	"sync/atomic.AddInt32": "AddInt32", "sync/atomic.AddInt64": "AddInt64", "sync/atomic.AddUint32": "AddUint32", "sync/atomic.AddUint64": "AddUint64",
	"sync/atomic.LoadInt32": "LoadInt32", "sync/atomic.LoadInt64": "LoadInt64", "sync/atomic.LoadUint32": "LoadUint32", "sync/atomic.LoadUint64": "LoadUint64",
	"sync/atomic.StoreInt32": "StoreInt32", "sync/atomic.StoreInt64": "StoreInt64", "sync/atomic.StoreUint32": "StoreUint32", "sync/atomic.StoreUint64": "StoreUint64",
	"sync/atomic.SwapInt32": "SwapInt32", "sync/atomic.SwapInt64": "SwapInt64", "sync/atomic.SwapUint32": "SwapUint32", "sync/atomic.SwapUint64": "SwapUint64",
	"sync/atomic.CompareAndSwapInt32": "CompareAndSwapInt32", "sync/atomic.CompareAndSwapInt64": "CompareAndSwapInt64",
	"sync/atomic.CompareAndSwapUint32": "CompareAndSwapUint32", "sync/atomic.CompareAndSwapUint64": "CompareAndSwapUint64",

	"time.Now": "TimeNow", "time.Since": "Since", "time.Until": "Until", "time.Sleep": "Sleep", "time.After": "After",
	"time.AfterFunc": "AfterFunc", "time.NewTimer": "NewTimer", "time.NewTicker": "NewTicker", "time.Tick": "Tick",
	"time.Timer": "Timer", "time.Ticker": "Ticker",

	"context.WithCancel": "WithCancel", "context.WithTimeout": "WithTimeout", "context.WithDeadline": "WithDeadline",
	"context.WithValue": "WithValue", "context.WithCancelCause": "WithCancelCause", "context.Cause": "Cause",
	"context.WithTimeoutCause": "WithTimeoutCause", "context.WithDeadlineCause": "WithDeadlineCause", "context.WithoutCancel": "WithoutCancel",

	"runtime.Gosched": "Gosched",
}

// envNames maps replaced environment identifiers to the models in package env.
var envNames = map[string]string{}

// always lists environment identifiers replaced in every instrumented package.
var always = map[string]bool{}

func init() {
	add := func(pkg string, all bool, ns ...string) {
		for _, n := range ns {
			k := pkg + "." + n
			envNames[k] = n
			if all {
				always[k] = true
			}
		}
	}
	ren := func(all bool, kv ...string) {
		for i := 0; i < len(kv); i += 2 {
			envNames[kv[i]] = kv[i+1]
			if all {
				always[kv[i]] = true
			}
		}
	}
	ren(true, "crypto/rand.Read", "RandRead", "crypto/rand.Reader", "RandReader")
	ren(true, "math/rand.Float64", "MathFloat64", "math/rand.Intn", "MathIntn", "math/rand.Int63n", "MathInt63n", "math/rand.Int63", "MathInt63", "math/rand.Rand", "MathRand", "math/rand.New", "MathNew", "math/rand.NormFloat64", "MathNormFloat64", "math/rand.ExpFloat64", "MathExpFloat64")
	add("os/exec", false, "Command", "CommandContext", "Cmd", "LookPath", "ExitError")
	add("os", false, "Stdin", "Stdout", "Stderr", "Args", "Getenv", "LookupEnv", "Hostname", "Getpid", "Stat", "Lstat", "Open", "OpenFile", "Create", "Exit", "File", "Process", "ProcessState", "ReadFile", "WriteFile", "Remove", "RemoveAll", "Getwd", "FindProcess", "Mkdir", "MkdirAll", "ReadDir", "Rename", "Environ")
	ren(false, "io/ioutil.ReadFile", "ReadFile", "io/ioutil.WriteFile", "WriteFile")
	ren(false, "os/signal.Notify", "SignalNotify", "os/signal.Stop", "SignalStop", "os/signal.NotifyContext", "SignalNotifyContext", "os/signal.Reset", "SignalReset", "os/signal.Ignore", "SignalIgnore")
	ren(false, "syscall.Kill", "SyscallKill")
	ren(true, "fmt.Printf", "Printf", "fmt.Println", "Println", "fmt.Print", "Print")
	ren(true, "log.Printf", "Logf", "log.Println", "Logln", "log.Print", "Log", "log.Fatalf", "LogFatalf", "log.Fatal", "LogFatal", "log.Fatalln", "LogFatal")
	ren(false, "github.com/stvp/rollbar.Error", "RollbarError", "github.com/stvp/rollbar.Wait", "RollbarWait", "github.com/stvp/rollbar.Message", "RollbarMessage", "github.com/stvp/rollbar.ErrorWithStackSkip", "RollbarErrorWithStackSkip")
	const g = "google.golang.org/grpc"
	ren(false, g+".CallOption", "GrpcCallOption", g+".Dial", "GrpcDial", g+".DialContext", "GrpcDialContext", g+".NewClient", "GrpcDial", g+".ClientConn", "GrpcClientConn",
		g+".DialOption", "GrpcDialOption", g+".WithInsecure", "GrpcWithInsecure", g+".WithTransportCredentials", "GrpcWithTransportCredentials",
		g+".WithBlock", "GrpcWithBlock", g+".WithTimeout", "GrpcWithTimeout", g+".FailOnNonTempDialError", "GrpcFailOnNonTempDialError",
		g+".WithUserAgent", "GrpcWithUserAgent", g+".WithDefaultCallOptions", "GrpcWithDefaultCallOptions", g+".WithDisableRetry", "GrpcWithDisableRetry")
}

// deepReaders are library functions that read everything their arguments reach.
var deepReaders = map[string]bool{
	"encoding/json.Marshal": true, "encoding/json.MarshalIndent": true, "strings.Join": true,
	"encoding/gob.Encode": true, "fmt.Sprintf": true, "fmt.Errorf": true, "fmt.Sprint": true,
	"sort.Strings": false,
}
