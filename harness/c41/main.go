//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/monny/proc"
	"github.com/BTBurke/monny/pkg/stat"
	"github.com/BTBurke/monny/vh/lib"
)

// size adds up what an object holds: the bytes of the values that can be reached from it. What belongs to the checker and what
// functions and interfaces of other packages hide does not count.
func size(objs ...interface{}) int {
	n := 0
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			return
		}
		t := v.Type()
		if strings.Contains(t.PkgPath(), "/monny/mc") || t.PkgPath() == "regexp" || t.PkgPath() == "reflect" {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			n += 8
			if e := t.Elem(); strings.Contains(e.PkgPath(), "/monny/mc") || e.PkgPath() == "regexp" || e.PkgPath() == "time" {
				return
			}
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			n += 16
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			n += 24
			if v.Len() == 0 || v.Type().Elem().Kind() == reflect.Uint8 {
				n += v.Len()
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			n += 8
			for it := v.MapRange(); it.Next(); {
				n += 16
				walk(it.Key())
				walk(it.Value())
			}
		case reflect.String:
			n += 16 + v.Len()
		default:
			n += 8
		}
	}
	for _, o := range objs {
		walk(reflect.ValueOf(o))
	}
	return n
}

// held is what is in use at a moment.
type held struct {
	live, tickers, conns, size int
	names                      []string
}

func look(objs ...interface{}) held {
	l := mc.Live()
	return held{len(l), mc.Tickers(), env.W.Conns, size(objs...), l}
}

// some and more are the numbers of cycles that are compared.
const some, more = 12, 72

// often is more for monitored commands.
const often = 36

// compare fails if more cycles hold more.
func compare(desc string, a, b held) {
	switch {
	case b.live > a.live:
		mc.Fail("goroutines", "%s: %d goroutines after %d times, %d after %d: %v", desc, a.live, some, b.live, more, b.names)
	case b.tickers > a.tickers:
		mc.Fail("tickers", "%s: %d tickers after %d times, %d after %d", desc, a.tickers, some, b.tickers, more)
	case b.conns > a.conns:
		mc.Fail("connections", "%s: %d open connections after %d times, %d after %d", desc, a.conns, some, b.conns, more)
	case b.size > a.size+a.size/2+200:
		mc.Fail("memory", "%s: %d bytes are held after %d times, %d after %d", desc, a.size, some, b.size, more)
	}
}

// nothing fails if anything is left.
func nothing(desc string, tickers int) {
	mc.Settle()
	h := look()
	switch {
	case h.live > 0:
		mc.Fail("goroutines", "%s: still running when all is over: %v", desc, h.names)
	case h.tickers > tickers:
		mc.Fail("tickers", "%s: %d tickers when all is over", desc, h.tickers)
	case h.conns > 0:
		mc.Fail("connections", "%s: %d open connections when all is over", desc, h.conns)
	}
}

// thing is a long-lived object.
type thing struct {
	ops []func(i int)
	// obj is measured
	obj func() interface{}
	end func()
	// tickers that may stay
	tickers int
}

// things: all cycles of up to some operations, many times.
func things(names []string, depth int, mk func(k int) (*thing, string)) func(c *lib.Cases) {
	return func(c *lib.Cases) {
		for k := range names {
			k := k
			n := 0
			for d := 1; d <= depth && n >= 0; d++ {
				d := d
				// the number of operations is only known to the object
				c.Add(fmt.Sprintf("%s-%d-any", names[k], d), func() {
					t, _ := mk(k)
					t.end()
				})
				for _, seq := range cycles(opsOf[strings.Fields(names[k])[0]], d) {
					seq := seq
					c.Add(fmt.Sprintf("%s-%s", names[k], lib.SeqID(seq)), func() {
						t, what := mk(k)
						desc := fmt.Sprintf("%s, operations %v again and again", what, seq)
						var a held
						for i := 0; i < more; i++ {
							for j, o := range seq {
								t.ops[o](i*len(seq) + j)
							}
							if i == some-1 {
								mc.Settle()
								a = look(t.obj())
							}
						}
						mc.Settle()
						compare(desc, a, look(t.obj()))
						t.end()
						nothing(desc, t.tickers)
						c.Step(more * len(seq))
						c.State("%s %d %d", names[k], len(seq), a.size)
					})
				}
			}
		}
	}
}

func cycles(n, depth int) (out [][]int) {
	seq := make([]int, depth)
	for {
		out = append(out, append([]int(nil), seq...))
		i := depth - 1
		for ; i >= 0; i-- {
			if seq[i]++; seq[i] < n {
				break
			}
			seq[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// opsOf is the number of operations of each kind of object.
var opsOf = map[string]int{"bus": 7, "counter": 4, "series": 4, "sampled": 5, "queue": 4, "machine": 4, "statistic": 4, "test": 4, "ticker": 2}

func busThing(quiet int) (*thing, string) {
	bus := eventbus.New()
	var dones []func()
	for i := 0; i < quiet; i++ {
		ch, done := bus.Subscribe([]eventbus.Topic{"a", "b"}[:i%3]...)
		var j lib.Join
		j.Go("subscriber", func() {
			for {
				if _, ok := mc.Recv2(ch); !ok {
					done()
					return
				}
			}
		})
		dones = append(dones, j.Wait)
	}
	ev, err := eventbus.NewEvent("e", "x")
	if err != nil {
		mc.Fail("create", "%v", err)
	}
	visit := func(dispatch, receive bool, topics ...eventbus.Topic) {
		ch, done := bus.Subscribe(topics...)
		if dispatch {
			bus.Dispatch(ev, "a")
			bus.Dispatch(ev, "b")
		}
		if receive {
			mc.Settle()
			mc.Recv2(ch)
		}
		bus.Unsubscribe(ch, nil)
		done()
	}
	t := &thing{obj: func() interface{} { return bus }}
	t.ops = []func(int){
		func(i int) { bus.Dispatch(ev); mc.Settle() },
		func(i int) { bus.Dispatch(ev, "a", "nobody"); mc.Settle() },
		func(i int) { visit(false, false) },
		func(i int) { visit(true, false) },
		func(i int) { visit(true, true) },
		func(i int) { visit(true, true, "a", "b") },
		func(i int) { visit(true, false, "c") },
	}
	t.end = func() {
		ctx, cancel := mc.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		if err := bus.Shutdown(ctx); err != nil {
			mc.Fail("shutdown", "%v", err)
		}
		for _, d := range dones {
			d()
		}
	}
	return t, fmt.Sprintf("a bus with %d subscribers", quiet)
}

func counterThing(k int) (*thing, string) {
	c := metric.NewWindowedCounter(time.Second)
	if k&1 > 0 {
		c.MaxHistory = 3
	}
	if k&2 > 0 {
		c.MaxHistoryDuration = 3 * time.Second
	}
	return &thing{obj: func() interface{} { return c }, end: func() {}, ops: []func(int){
		func(i int) { c.Add(1); mc.Sleep(1100 * time.Millisecond) },
		func(i int) { c.Add(1); mc.Sleep(300 * time.Millisecond) },
		func(i int) { c.History(); c.HistoryInclusive(); c.Value() },
		func(i int) {
			if i%5 == 0 {
				c.Reset()
			}
		},
	}}, fmt.Sprintf("a counter with history limited by %d", k)
}

func seriesThing(capacity int) (*thing, string) {
	s, err := metric.NewSeries(capacity)
	if err != nil {
		mc.Fail("create", "%v", err)
	}
	return &thing{obj: func() interface{} { return s }, end: func() {}, ops: []func(int){
		func(i int) { s.Record(float64(i)) },
		func(i int) { s.Values(); s.Count(); s.Capacity() },
		func(i int) {
			if i%7 == 0 {
				s.Reset()
			}
		},
		func(i int) { _ = s.Name() },
	}}, fmt.Sprintf("a series of %d", capacity)
}

func sampledThing(capacity int, window time.Duration) (*thing, string) {
	s, stop, err := metric.NewSampledSeries(capacity, window, metric.SampleMax)
	if err != nil {
		mc.Fail("create", "%v", err)
	}
	pause := func() { mc.Sleep(window + window/3 + time.Millisecond) }
	return &thing{obj: func() interface{} { return s }, end: func() { stop(); stop() }, ops: []func(int){
		func(i int) { s.Record(float64(i)); pause() },
		func(i int) { s.Record(1); s.Record(2); s.Record(3); pause() },
		func(i int) { pause() },
		func(i int) { s.Values(); s.Count(); s.Name() },
		func(i int) {
			if i%7 == 0 {
				s.Reset()
			}
		},
	}}, fmt.Sprintf("a sampled series of %d in windows of %v", capacity, window)
}

func queueThing(capacity int) (*thing, string) {
	q := proc.NewQueue(capacity)
	return &thing{obj: func() interface{} { return q }, end: func() {}, ops: []func(int){
		func(i int) { q.Add(fmt.Sprint("line ", i)) },
		func(i int) { q.Add("") },
		func(i int) { q.Copy() },
		func(i int) {
			if i%5 == 0 {
				q.Clear()
			}
		},
	}}, fmt.Sprintf("a queue of %d", capacity)
}

func machineThing(nonce bool) (*thing, string) {
	opts := []fsm.MachineOption{fsm.WithTransitions(fsm.T("a", "b"), fsm.T("b", "a")), fsm.WithStoppable()}
	if !nonce {
		m, err := fsm.NewMachine("a", opts...)
		if err != nil {
			mc.Fail("create", "%v", err)
		}
		return &thing{obj: func() interface{} { return m }, end: func() {}, ops: []func(int){
			func(i int) { m.Transition("b") },
			func(i int) { m.Transition("a") },
			func(i int) { m.Reset() },
			func(i int) { m.Allowable("a", "x"); m.State() },
		}}, "a machine"
	}
	m, err := fsm.NewMachineNonce("a", opts...)
	if err != nil {
		mc.Fail("create", "%v", err)
	}
	return &thing{obj: func() interface{} { return m }, end: func() {}, ops: []func(int){
		func(i int) { m.Transition("b", m.Nonce()) },
		func(i int) { m.Transition("a", m.Nonce()) },
		func(i int) { m.Reset() },
		func(i int) { m.Transition("a", []byte{1}) },
	}}, "a machine with nonces"
}

func pdf(k int) (stat.PDF, string) {
	switch k {
	case 0:
		return stat.NewLogNormal(5, stat.KFixed(1)), "log-normal"
	case 1:
		return stat.NewPoisson(5, 0, metric.SampleSum, stat.KFixed(1)), "Poisson"
	}
	return stat.NewPoisson(5, 10*time.Millisecond, metric.SampleSum, stat.KFixed(1)), "Poisson, sampled"
}

func statisticThing(k int) (*thing, string) {
	p, name := pdf(k)
	s, err := stat.NewEWMAStatistic("s", 0.3, p)
	if err != nil {
		mc.Fail("create", "%v", err)
	}
	rec := func(x float64) {
		s.Record(x)
		mc.Sleep(11 * time.Millisecond)
	}
	return &thing{obj: func() interface{} { return s }, end: s.Done, ops: []func(int){
		func(i int) { rec(1 + float64(i%3)) },
		func(i int) { rec(200) },
		func(i int) { s.Transition(stat.Reset, i%2 == 0) },
		func(i int) { s.HasAlarmed(); s.State(); s.Limit(); s.Value() },
	}}, "a statistic, " + name
}

func testThing(k int) (*thing, string) {
	var sts []stat.TestOption
	for i := 0; i < 2; i++ {
		p, _ := pdf((k + i) % 3)
		s, err := stat.NewEWMAStatistic(fmt.Sprint("s", i), 0.3, p)
		if err != nil {
			mc.Fail("create", "%v", err)
		}
		sts = append(sts, stat.WithStatistic(s))
	}
	t, err := stat.NewPoissonTest(metric.NewName("n", nil), sts...)
	if err != nil {
		mc.Fail("create", "%v", err)
	}
	return &thing{obj: func() interface{} { return t }, end: t.Done, ops: []func(int){
		func(i int) { t.Record(1 + float64(i%3)); mc.Sleep(11 * time.Millisecond) },
		func(i int) { t.Record(200); mc.Sleep(11 * time.Millisecond) },
		func(i int) { t.Transition(stat.Reset, i%2 == 0) },
		func(i int) { t.HasAlarmed(); t.State(); t.Metric(); t.Name() },
	}}, fmt.Sprintf("a test (%d)", k)
}

func tickerThing(n int) (*thing, string) {
	t, _ := busThing(1)
	bus := t.obj().(*eventbus.EventBus)
	for i := 0; i < n; i++ {
		proc.NewTicker(10*time.Millisecond, bus, "tick")
	}
	t.ops = []func(int){
		func(i int) { mc.Sleep(10 * time.Millisecond) },
		func(i int) { mc.Sleep(55 * time.Millisecond) },
	}
	return t, fmt.Sprintf("%d tickers", n)
}

var kinds = []struct {
	name string
	mk   func() (*thing, string)
}{
	{"bus none", func() (*thing, string) { return busThing(0) }},
	{"bus three", func() (*thing, string) { return busThing(3) }},
	{"counter 1", func() (*thing, string) { return counterThing(1) }},
	{"counter 2", func() (*thing, string) { return counterThing(2) }},
	{"counter 3", func() (*thing, string) { return counterThing(3) }},
	{"series 1", func() (*thing, string) { return seriesThing(1) }},
	{"series 7", func() (*thing, string) { return seriesThing(7) }},
	{"sampled direct", func() (*thing, string) { return sampledThing(3, 0) }},
	{"sampled window", func() (*thing, string) { return sampledThing(3, 10*time.Millisecond) }},
	{"queue 0", func() (*thing, string) { return queueThing(0) }},
	{"queue 4", func() (*thing, string) { return queueThing(4) }},
	{"machine plain", func() (*thing, string) { return machineThing(false) }},
	{"machine nonce", func() (*thing, string) { return machineThing(true) }},
	{"statistic 0", func() (*thing, string) { return statisticThing(0) }},
	{"statistic 1", func() (*thing, string) { return statisticThing(1) }},
	{"statistic 2", func() (*thing, string) { return statisticThing(2) }},
	{"test 0", func() (*thing, string) { return testThing(0) }},
	{"test 1", func() (*thing, string) { return testThing(1) }},
	{"ticker 1", func() (*thing, string) { return tickerThing(1) }},
	{"ticker 3", func() (*thing, string) { return tickerThing(3) }},
}

func objects(c *lib.Cases) {
	var names []string
	for _, k := range kinds {
		names = append(names, k.name)
	}
	things(names, c.Depth(3, 4), func(k int) (*thing, string) { return kinds[k].mk() })(c)
}

// makers: objects that are made, used and ended again and again leave nothing.
func makers(c *lib.Cases) {
	for _, k := range kinds {
		k := k
		for _, used := range cycles(opsOf[strings.Fields(k.name)[0]], 2) {
			used := used
			c.Add(fmt.Sprintf("%s-%s", k.name, lib.SeqID(used)), func() {
				what := ""
				for i := 0; i < 6; i++ {
					var t *thing
					t, what = k.mk()
					for _, o := range used {
						t.ops[o](i)
					}
					t.end()
				}
				nothing(fmt.Sprintf("%s, six times made, used by %v and ended", what, used), 0)
				c.Step(6)
				c.State("%s %v", k.name, used)
			})
		}
	}
}

// monitor: a command that goes on and on with the same things again and again.
func monitor(c *lib.Cases) {
	// each operation takes a while
	ops := []string{"line", "error line", "match", "long line", "memory", "warning", "silence", "burst"}
	servers := []string{"accepts", "refuses once", "fails for ever", "is slow"}
	for d := 1; d <= c.Depth(2, 3); d++ {
		for srv := range servers {
			for daemon := 0; daemon < 2; daemon++ {
				srv, daemon := srv, daemon == 1
				if srv == 2 && (!daemon && (d > 1 || c.Quick) || d > 1 && c.Quick) {
					// a clock that ticks each second, for hours
					continue
				}
				c.Seqs(fmt.Sprintf("s%d%v", srv, daemon), len(ops), d, func(seq []int) func() {
					seq = append([]int(nil), seq...)
					return func() {
						var what []string
						gap := 2 * time.Second
						for _, o := range seq {
							what = append(what, ops[o])
						}
						switch srv {
						case 1, 3:
							gap = 10 * time.Second
						case 2:
							// until the reports are given up
							gap = 20 * time.Minute
						}
						desc := fmt.Sprintf("daemon %v, server %s, again and again %v", daemon, servers[srv], what)
						w := &env.World{}
						w.Server = func(a *env.Attempt) env.Reply {
							switch {
							case srv == 1 && a.N%2 == 0:
								return env.Reply{Nack: true}
							case srv == 2:
								return env.Reply{Err: errors.New("unavailable")}
							case srv == 3:
								return env.Reply{Delay: 3 * time.Second}
							}
							return env.Reply{}
						}
						w.Child = func(p *env.Proc) {
							n := 0
							p.Mem(1000)
							for i := 0; i < often; i++ {
								for _, o := range seq {
									n++
									switch o {
									case 0:
										p.Stdout(fmt.Sprintf("line %d\n", n))
									case 1:
										p.Stderr(fmt.Sprintf("line %d\n", n))
									case 2:
										p.Stdout(fmt.Sprintf("match %d\n", n))
									case 3:
										p.Stdout(strings.Repeat(string(rune('a'+n%10)), 300) + "\n")
									case 4:
										p.Mem(uint64(1000 + n))
									case 5:
										p.Mem(3000, uint64(n))
									case 7:
										for k := 0; k < 5; k++ {
											p.Stderr(fmt.Sprintf("match %d\n", n))
										}
									}
									p.Sleep(gap)
								}
							}
							p.Sleep(time.Hour)
							p.Exit(0)
						}
						monny.SuppressErrorReporting = false
						env.Reset(w)
						opts := []monny.ConfigOption{monny.ID("t"), monny.Insecure(), monny.Rule("match"), monny.MemoryWarn("2M"), monny.StdoutHistory("3"), monny.StderrHistory("2")}
						if daemon {
							opts = append(opts, monny.Daemon())
						}
						cmd, errs := monny.New([]string{"prog"}, opts...)
						if len(errs) > 0 {
							mc.Fail("create", "%v", errs)
						}
						over := make(chan error, 1)
						mc.GoNamed("user", func() {
							err := cmd.Exec()
							if err == nil {
								err = cmd.Wait()
							}
							mc.SendTo(over)(err)
						})
						cycle := gap * time.Duration(len(seq))
						mc.Sleep(some*cycle - gap/8)
						mc.Settle()
						a := look(cmd)
						mc.Sleep((often - some) * cycle)
						mc.Settle()
						b := look(cmd)
						if srv == 2 {
							// matches wait for a report that can be delivered
							b.size = a.size
						}
						compare(desc, a, b)
						if err := mc.Recv(over); err != nil {
							mc.Fail("exec", "%s: %v", desc, err)
						}
						// the memory is no longer looked at, but its clock may go on
						nothing(desc, 1)
						c.Step(often * len(seq))
						c.State("%d %v %v", srv, daemon, seq)
					}
				})
			}
		}
	}
}

// ends: however a run ends, and whatever could not be done, nothing of it goes on.
func ends(c *lib.Cases) {
	ends := []string{"success", "failure", "crash", "kill timeout", "memory", "SIGTERM", "missing file", "no program", "ignores the signal"}
	faults := []string{"none", "stdout", "memory", "host", "stat"}
	for e := range ends {
		for f := range faults {
			for srv := 0; srv < 5; srv++ {
				for opt := 0; opt < 8; opt++ {
					e, f, srv, opt := e, f, srv, opt
					c.Add(fmt.Sprintf("%d-%d-%d-%d", e, f, srv, opt), func() {
						desc := fmt.Sprintf("end by %s, fault %s, server %d, options %d", ends[e], faults[f], srv, opt)
						w := &env.World{}
						w.Server = func(a *env.Attempt) env.Reply {
							switch {
							case srv == 1:
								return env.Reply{Err: errors.New("unavailable")}
							case srv == 2:
								return env.Reply{Hang: true}
							case srv == 3 && a.N < 2:
								return env.Reply{Nack: true}
							case srv == 4:
								return env.Reply{Delay: 700 * time.Millisecond, Lost: a.N == 0}
							}
							return env.Reply{}
						}
						w.Child = func(p *env.Proc) {
							p.Mem(3000)
							p.Stdout("match\n")
							p.Stderr("match")
							p.Sleep(1500 * time.Millisecond)
							switch e {
							case 0, 6:
								p.Exit(0)
							case 1:
								p.Exit(1)
							case 2:
								p.Crash(syscall.SIGABRT)
							case 4:
								p.Mem(9000)
							case 5:
								p.Go("user", func() { w.Kill(syscall.SIGTERM) })
							case 8:
								p.OnSignal = func(s syscall.Signal) {}
								p.Go("user", func() { w.Kill(os.Interrupt) })
								p.Sleep(5 * time.Second)
								p.Exit(0)
							}
							p.Forever()
						}
						opts := []monny.ConfigOption{monny.ID("t"), monny.Insecure(), monny.Rule("match"), monny.MemoryWarn("2M"), monny.NotifyTimeout("1s")}
						if opt&1 > 0 {
							opts = append(opts, monny.Daemon())
						}
						if opt&2 > 0 {
							opts = append(opts, monny.NoErrorReports())
						}
						if opt&4 > 0 {
							opts = append(opts, monny.NoNotifyOnSuccess(), monny.NoNotifyOnFailure())
						}
						switch e {
						case 3:
							opts = append(opts, monny.KillTimeout("2s"))
						case 4:
							opts = append(opts, monny.MemoryKill("5M"))
						case 6:
							opts = append(opts, monny.Creates("/none"))
						case 7:
							w.StartErr = &os.PathError{Op: "fork/exec", Path: "prog", Err: syscall.ENOENT}
						}
						switch f {
						case 2:
							w.ProcFS = func(path string, b []byte, err error) ([]byte, error) {
								return nil, &os.PathError{Op: "open", Path: path, Err: syscall.EACCES}
							}
							if e == 4 {
								return
							}
						case 3:
							w.HostErr = &os.SyscallError{Syscall: "uname", Err: syscall.EPERM}
						}
						monny.SuppressErrorReporting = false
						env.Reset(w)
						switch f {
						case 1:
							env.Stdout.WriteErr = &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.ENOSPC}
						case 4:
							env.Stdin.StatErr = errors.New("bad file descriptor")
						}
						cmd, errs := monny.New([]string{"prog"}, opts...)
						if len(errs) > 0 {
							mc.Fail("create", "%v", errs)
						}
						err := cmd.Exec()
						if (err != nil) != (e == 7) {
							mc.Fail("exec", "%s: %v", desc, err)
						}
						if err := cmd.Wait(); err != nil {
							mc.Fail("wait", "%s: %v", desc, err)
						}
						// a command that ignores signals ends by itself
						mc.Sleep(time.Hour)
						nothing(desc, 1)
						c.Step(1)
						c.State("%s", desc)
					})
				}
			}
		}
	}
}

// logs: log processors of long streams, and many of them on one bus.
func logs(c *lib.Cases) {
	texts := []string{"a\n", "b\nc\n", "d", "\n", strings.Repeat("e", 200) + "\n"}
	for d := 1; d <= c.Depth(2, 3); d++ {
		for k := 0; k < 4; k++ {
			k := k
			c.Seqs(fmt.Sprintf("k%d", k), len(texts), d, func(seq []int) func() {
				seq = append([]int(nil), seq...)
				return func() {
					desc := fmt.Sprintf("a log processor (%d) of pieces %v again and again", k, seq)
					child := func(p *env.Proc) {
						for i := 0; i < more; i++ {
							for _, o := range seq {
								if i%2 == 0 {
									p.Stdout(texts[o])
								} else {
									p.Stderr(texts[o])
								}
								p.Sleep(time.Second)
							}
							if i%4 == 3 {
								// never a line without end
								p.Stdout("\n")
								p.Stderr("\n")
							}
						}
						p.Exit(0)
					}
					env.Reset(&env.World{Child: child})
					bus := eventbus.New()
					ch, done := bus.Subscribe(proc.LogTopic)
					mc.GoNamed("log subscriber", func() {
						for {
							if _, ok := mc.Recv2(ch); !ok {
								done()
								return
							}
						}
					})
					cmd := env.Command("prog")
					opts := []proc.LogProcessorOption{proc.WithCommand(cmd), proc.WithHistory(3)}
					switch k {
					case 1:
						opts = append(opts, proc.WithNoOutput())
					case 2:
						opts = append(opts, proc.WithNoStderrOutput())
					case 3:
						env.Stdout.WriteErr = errors.New("no space")
					}
					l, err := proc.NewLogProcessor(bus, opts...)
					if err != nil {
						mc.Fail("create", "%v", err)
					}
					if err := cmd.Start(); err != nil {
						mc.Fail("create", "%v", err)
					}
					cycle := time.Duration(len(seq)) * time.Second
					mc.Sleep(some*cycle - 100*time.Millisecond)
					mc.Settle()
					a := look(l, bus)
					mc.Sleep((more - some) * cycle)
					mc.Settle()
					compare(desc, a, look(l, bus))
					if err := l.Wait(context.Background()); err != nil {
						mc.Fail("wait", "%v", err)
					}
					if err := cmd.Wait(); err != nil {
						mc.Fail("wait", "%v", err)
					}
					if err := bus.Shutdown(context.Background()); err != nil {
						mc.Fail("shutdown", "%v", err)
					}
					nothing(desc, 0)
					c.Step(more * len(seq))
					c.State("%d %v %d", k, seq, a.size)
				}
			})
		}
	}
	for n := 1; n <= 12; n++ {
		n := n
		c.Add(fmt.Sprintf("many%d", n), func() {
			env.Reset(&env.World{Child: func(p *env.Proc) { p.Stdout("a\n"); p.Sleep(time.Second); p.Stderr("b"); p.Exit(0) }})
			bus := eventbus.New()
			for i := 0; i < n; i++ {
				cmd := env.Command("prog")
				// closed by the previous one
				l, err := proc.NewLogProcessor(bus, proc.WithCommand(cmd), proc.WithNoOutput())
				if err != nil {
					mc.Fail("create", "%v", err)
				}
				if err := cmd.Start(); err != nil {
					mc.Fail("create", "%v", err)
				}
				if err := l.Wait(context.Background()); err != nil {
					mc.Fail("wait", "%v", err)
				}
				if err := cmd.Wait(); err != nil {
					mc.Fail("wait", "%v", err)
				}
			}
			nothing(fmt.Sprintf("%d log processors one after the other", n), 0)
			c.Step(n)
		})
	}
}

func main() {
	lib.Main("C41", []lib.Scenario{
		{Name: "objects", Weight: 3, What: "20 kinds of long-lived objects: all cycles of up to 3 (4) operations, 12 and 72 times", Seq: objects},
		{Name: "makers", What: "the same made, used by all pairs of operations and ended, six times", Seq: makers},
		{Name: "monitor", Weight: 3, What: "monitored commands: all cycles of up to 2 (3) of eight things, 12 and 36 times, with four behaviours of the server", Seq: monitor},
		{Name: "ends", Weight: 2, What: "all combinations of nine ends, five faults, five servers and eight sets of options", Seq: ends},
		{Name: "logs", What: "log processors: all cycles of up to 2 (3) pieces, 12 and 72 times", Seq: logs},
	})
}
