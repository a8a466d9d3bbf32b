//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/monny/proc"
	"github.com/BTBurke/monny/vh/lib"
)

// lines is the specification of what the lines of a stream are, with or
// without the carriage return of the line end.
func lines(s string, keep bool) []string {
	if s == "" {
		return nil
	}
	l := strings.Split(s, "\n")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	for i := range l {
		if !keep {
			l[i] = strings.TrimSuffix(l[i], "\r")
		}
	}
	return l
}

func echo(s string, keep bool) string {
	l := lines(s, keep)
	if len(l) == 0 {
		return ""
	}
	return strings.Join(l, "\n") + "\n"
}

// echoes decides whether got is the echo of a text.
func echoes(got, text string) bool { return got == echo(text, false) || got == echo(text, true) }

// eventsOf decides whether got are the lines of the texts in any order.
func eventsOf(got []string, texts ...string) bool {
	var a, b []string
	for _, t := range texts {
		a = append(a, lines(t, false)...)
		b = append(b, lines(t, true)...)
	}
	g := sorted(got)
	return g == sorted(a) || g == sorted(b)
}

// rec receives the events of the log topic.
type rec struct {
	lines  []string
	errs   []string
	first  time.Time
	closed bool
}

func listen(bus *eventbus.EventBus) *rec {
	r := &rec{}
	start := mc.TimeNow()
	ch, done := bus.Subscribe(proc.LogTopic)
	mc.GoNamed("log subscriber", func() {
		for {
			e, ok := mc.Recv2(ch)
			if !ok {
				break
			}
			if e.Type() != proc.LogLine {
				mc.Fail("events", "an event of type %q on the log topic", e.Type())
			}
			var l proc.LogEvent
			if err := e.Decode(&l); err != nil {
				mc.Fail("events", "a log event without a log line: %v", err)
			}
			if l.Timestamp.Before(start) || l.Timestamp.After(mc.TimeNow()) {
				mc.Fail("events", "a log event with the time %v", l.Timestamp)
			}
			r.lines = append(r.lines, string(l.Line))
		}
		r.closed = true
		done()
	})
	ech, edone := bus.Subscribe(eventbus.OnErrorTopic())
	mc.GoNamed("error subscriber", func() {
		for {
			e, ok := mc.Recv2(ech)
			if !ok {
				break
			}
			r.errs = append(r.errs, string(e.Type()))
		}
		edone()
	})
	return r
}

func sorted(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	for i := range l {
		if len(l[i]) > 100 {
			l[i] = fmt.Sprintf("%s...(%d bytes, sum %x)", l[i][:10], len(l[i]), sum(l[i]))
		}
	}
	return fmt.Sprintf("%q", l)
}

func sum(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func short(s string) string {
	if len(s) > 100 {
		return fmt.Sprintf("%q...(%d bytes, sum %x)", s[:20], len(s), sum(s))
	}
	return fmt.Sprintf("%q", s)
}

// chunk is one write of the command.
type chunk struct {
	err bool
	s   string
}

func total(cs []chunk, err bool) string {
	r := ""
	for _, c := range cs {
		if c.err == err {
			r += c.s
		}
	}
	return r
}

type setup struct {
	noOutput, noStdout, noStderr, noStdoutIn, noStderrIn bool
}

// the texts that are to be echoed and published
func (o setup) want(cs []chunk) (out, err string, evs []string) {
	if !o.noStdoutIn {
		evs = append(evs, total(cs, false))
		if !o.noOutput && !o.noStdout {
			out = total(cs, false)
		}
	}
	if !o.noStderrIn {
		evs = append(evs, total(cs, true))
		if !o.noOutput && !o.noStderr {
			err = total(cs, true)
		}
	}
	return
}

func verifyEcho(desc string, o setup, cs []chunk) {
	wo, we, _ := o.want(cs)
	if got := env.Stdout.Text(); !echoes(got, wo) {
		mc.Fail("echo", "%s: standard output is %s, want that of %s", desc, short(got), short(wo))
	}
	if got := env.Stderr.Text(); !echoes(got, we) {
		mc.Fail("echo", "%s: standard error is %s, want that of %s", desc, short(got), short(we))
	}
}

func verify(desc string, o setup, cs []chunk, r *rec) {
	verifyEcho(desc, o, cs)
	if _, _, evs := o.want(cs); !eventsOf(r.lines, evs...) {
		mc.Fail("events", "%s: log events %s, want those of %q", desc, sorted(r.lines), evs)
	}
}

// process runs one command to its end.
func process(desc string, cs []chunk, o setup, opts func(cmd *env.Cmd) []proc.LogProcessorOption, pause time.Duration) *rec {
	env.Reset(&env.World{Child: func(p *env.Proc) {
		for _, c := range cs {
			if c.err {
				p.Stderr(c.s)
			} else {
				p.Stdout(c.s)
			}
			if pause > 0 {
				p.Sleep(pause)
			}
		}
		p.Exit(0)
	}})
	bus := eventbus.New()
	r := listen(bus)
	cmd := env.Command("prog")
	l, err := proc.NewLogProcessor(bus, opts(cmd)...)
	if err != nil {
		mc.Fail("create", "%s: %v", desc, err)
	}
	if err := cmd.Start(); err != nil {
		mc.Fail("create", "%s: %v", desc, err)
	}
	ctx, cancel := mc.WithTimeout(context.Background(), time.Hour)
	defer cancel()
	if err := l.Wait(ctx); err != nil {
		mc.Fail("wait", "%s: waiting: %v", desc, err)
	}
	// the echo is complete when waiting is over
	verifyEcho(desc+" after waiting", o, cs)
	mc.Settle()
	verify(desc, o, cs, r)
	if len(r.errs) > 0 {
		mc.Fail("errors", "%s: errors reported: %v", desc, r.errs)
	}
	if err := bus.Shutdown(ctx); err != nil {
		mc.Fail("shutdown", "%s: %v", desc, err)
	}
	mc.Settle()
	if lv := mc.Live(); len(lv) > 0 {
		mc.Fail("leak", "%s: still running: %v", desc, lv)
	}
	return r
}

func plain(cmd *env.Cmd) []proc.LogProcessorOption {
	return []proc.LogProcessorOption{proc.WithCommand(cmd)}
}

// streams: all contents of one stream up to a length in all chunkings.
func streams(c *lib.Cases) {
	depth := 4
	if !c.Quick {
		depth = 6
	}
	alpha := []string{"a", "\n", "\r", "\xc3\xa9 "}
	for n := 0; n <= depth; n++ {
		idx := make([]int, n)
		for {
			seq := append([]int(nil), idx...)
			for split := 0; split < 1<<uint(max(n-1, 0)); split++ {
				for _, toErr := range []bool{false, true} {
					if toErr && bits.OnesCount(uint(split)) > 1 {
						continue
					}
					c.Add(fmt.Sprint(seq, split, toErr), func() {
						var cs []chunk
						cur := ""
						for i, k := range seq {
							cur += alpha[k]
							if split>>uint(i)&1 == 1 || i == n-1 {
								cs = append(cs, chunk{toErr, cur})
								cur = ""
							}
						}
						process(fmt.Sprintf("%q", cs), cs, setup{}, plain, 0)
						c.Step(len(cs))
						c.State("%q", total(cs, toErr))
					})
				}
			}
			i := n - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(alpha) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
}

// long lines around all sizes that buffers may have.
func long(c *lib.Cases) {
	for _, n := range []int{1, 4095, 4096, 4097, 8192, 65534, 65535, 65536, 65537, 131072, 1 << 18, 1<<20 + 1, 5 << 20, 17 << 20} {
		for _, tail := range []string{"", "\n", "\nnext\n", "\r\nnext"} {
			for _, cut := range []int{0, 1, n / 2, n, n - 1, 4096, 65536} {
				for _, toErr := range []bool{false, true} {
					if n > 4<<20 && (tail != "\nnext\n" || toErr) || n > 1<<17 && (cut != n/2 || tail == "" || toErr && c.Quick) || c.Quick && toErr && cut%2 == 1 {
						continue
					}
					c.Add(fmt.Sprintf("%d %q %d %v", n, tail, cut, toErr), func() {
						var b strings.Builder
						for i := 0; b.Len() < n; i++ {
							fmt.Fprintf(&b, "%d,", i)
						}
						s := "first\n" + b.String()[:n] + tail
						k := 6 + cut
						cs := []chunk{{toErr, s}}
						if cut > 0 && k < len(s) {
							cs = []chunk{{toErr, s[:k]}, {!toErr, "other stream\n"}, {toErr, s[k:]}}
						}
						process(fmt.Sprintf("a line of %d bytes then %q cut at %d", n, tail, cut), cs, setup{}, plain, 0)
						c.Step(3)
						c.State("%d %q %d %v", n, tail, cut, toErr)
					})
				}
			}
		}
	}
	for _, n := range []int{10, 100, 700, 1100, 4200} {
		c.Add(fmt.Sprint(n, " lines"), func() {
			var cs []chunk
			for i := 0; i < n; i++ {
				cs = append(cs, chunk{i%3 == 0, fmt.Sprintf("line %d\n", i)})
			}
			process(fmt.Sprint(n, " lines"), []chunk{{false, total(cs, false)}, {true, total(cs, true)}}, setup{}, plain, 0)
			c.Step(n)
			c.State("%d lines", n)
		})
	}
}

// texts: all lines of one and two bytes, and lines over a wider alphabet.
func texts(c *lib.Cases) {
	for _, toErr := range []bool{false, true} {
		for b := 0; b < 256; b++ {
			if c.Quick && toErr && b%16 != 0 {
				continue
			}
			c.Add(fmt.Sprint("two bytes ", b, toErr), func() {
				var t strings.Builder
				for x := 0; x < 256; x++ {
					t.WriteString(string([]byte{byte(b), byte(x)}) + "\n")
				}
				cs := []chunk{{toErr, t.String()}}
				process(fmt.Sprintf("all lines of two bytes that begin with %q", byte(b)), cs, setup{}, plain, 0)
				c.Step(256)
				c.State("%d %v", b, toErr)
			})
		}
	}
	alpha := []string{" ", "\t", "%d", "\\", "\x00", "\x1b[0m", "\"", "\r", "\u2028", "\xff", "<a>", "z"}
	depth := 2
	if !c.Quick {
		depth = 4
	}
	c.Seqs("text ", len(alpha), depth, func(seq []int) func() {
		return func() {
			t := ""
			for _, x := range seq {
				t += alpha[x]
			}
			cs := []chunk{{false, t + "\n" + t + t + "\n" + t}, {true, t}}
			process(fmt.Sprintf("text %q", t), cs, setup{}, plain, 0)
			c.Step(2)
			c.State("%q", t)
		}
	})
}

// options: all subsets of the options in all orders.
func options(c *lib.Cases) {
	type opt struct {
		name string
		set  func(o *setup)
		mk   func(cmd *env.Cmd) proc.LogProcessorOption
	}
	opts := []opt{
		{"command", func(o *setup) {}, func(cmd *env.Cmd) proc.LogProcessorOption { return proc.WithCommand(cmd) }},
		{"no output", func(o *setup) { o.noOutput = true }, func(*env.Cmd) proc.LogProcessorOption { return proc.WithNoOutput() }},
		{"no stdout output", func(o *setup) { o.noStdout = true }, func(*env.Cmd) proc.LogProcessorOption { return proc.WithNoStdoutOutput() }},
		{"no stderr output", func(o *setup) { o.noStderr = true }, func(*env.Cmd) proc.LogProcessorOption { return proc.WithNoStderrOutput() }},
		{"no stdout input", func(o *setup) { o.noStdoutIn = true }, func(*env.Cmd) proc.LogProcessorOption { return proc.WithNoStdoutInput() }},
		{"no stderr input", func(o *setup) { o.noStderrIn = true }, func(*env.Cmd) proc.LogProcessorOption { return proc.WithNoStderrInput() }},
		{"history", func(o *setup) {}, func(*env.Cmd) proc.LogProcessorOption { return proc.WithHistory(1) }},
	}
	maxLen := 4
	if !c.Quick {
		maxLen = 7
	}
	cs := []chunk{{false, "o1\n"}, {true, "e1\ne2"}, {false, "o2\n"}, {true, "\n"}, {false, "o3"}}
	var rec func(used int, seq []int)
	rec = func(used int, seq []int) {
		if used&1 == 1 {
			order := append([]int(nil), seq...)
			c.Add(fmt.Sprint(order), func() {
				var o setup
				var names []string
				for _, k := range order {
					opts[k].set(&o)
					names = append(names, opts[k].name)
				}
				process(strings.Join(names, ", "), cs, o, func(cmd *env.Cmd) []proc.LogProcessorOption {
					var l []proc.LogProcessorOption
					for _, k := range order {
						l = append(l, opts[k].mk(cmd))
					}
					return l
				}, 0)
				c.Step(1)
				c.State("%d", used)
			})
		}
		if len(seq) == maxLen {
			return
		}
		for k := range opts {
			if used>>uint(k)&1 == 0 {
				rec(used|1<<uint(k), append(append([]int(nil), seq...), k))
			}
		}
	}
	rec(0, nil)
}

// piped: monny at the end of a pipe.
func piped(c *lib.Cases) {
	texts := []string{"", "a", "a\n", "\n", "a\n\nb", "a\r\nb\n", strings.Repeat("x", 70000) + "\nend\n"}
	for ti, text := range texts {
		for cut := 0; cut <= 3; cut++ {
			for o := 0; o < 4; o++ {
				c.Add(fmt.Sprint(ti, cut, o), func() {
					env.Reset(&env.World{})
					ch := make(chan []byte, 4)
					k := cut
					if k > len(text) {
						k = len(text)
					}
					if k > 0 {
						mc.SendTo(ch)([]byte(text[:k]))
					}
					if k < len(text) {
						mc.SendTo(ch)([]byte(text[k:]))
					}
					mc.Close(ch)
					env.Stdin.SetPipe(ch)
					bus := eventbus.New()
					r := listen(bus)
					opts := []proc.LogProcessorOption{proc.WithCommand(env.Command(""))}
					if o&1 == 1 {
						opts = append([]proc.LogProcessorOption{proc.WithNoStdoutOutput()}, opts...)
					}
					if o&2 == 2 {
						opts = append([]proc.LogProcessorOption{proc.WithNoStderrOutput()}, opts...)
					}
					l, err := proc.NewLogProcessor(bus, opts...)
					if err != nil {
						mc.Fail("create", "%v", err)
					}
					if err := l.Wait(context.Background()); err != nil {
						mc.Fail("wait", "%v", err)
					}
					mc.Settle()
					want := text
					if o&1 == 1 {
						want = ""
					}
					if got := env.Stdout.Text(); !echoes(got, want) || env.Stderr.Text() != "" {
						mc.Fail("echo", "input %s: standard output is %s, want %s", short(text), short(got), short(want))
					}
					if !eventsOf(r.lines, text) {
						mc.Fail("events", "input %s: log events %s", short(text), sorted(r.lines))
					}
					c.Step(1)
					c.State("%d %d", ti, o)
				})
			}
		}
	}
}

func main() {
	cfg := mc.Config{Race: true, MapOrders: 2}
	lib.Main("C30", []lib.Scenario{
		{Name: "streams", Weight: 3, What: "all contents of a stream up to 4 (6) symbols (letter, newline, carriage return, multi-byte) in all splits into writes", Seq: streams},
		{Name: "long", Weight: 2, What: "lines of up to a megabyte around buffer sizes, cut anywhere, and up to 4200 lines", Seq: long},
		{Name: "texts", What: "all lines of two bytes on either stream, all texts of 2 (4) pieces of an alphabet of 12", Seq: texts},
		{Name: "options", Weight: 2, What: "all subsets of up to 4 (7) options in all orders", Seq: options},
		{Name: "piped", What: "standard input as the source", Seq: piped},
		{Name: "both", Weight: 3, What: "two lines on each stream in every order of writes, all schedules", Cfg: cfg, Body: func() {
			orders := [][]chunk{
				{{false, "a\n"}, {true, "x\n"}, {false, "b"}},
				{{false, "a\n"}, {false, "b\n"}, {true, "x"}},
				{{true, "x\ny"}, {false, "a\n"}},
				{{true, "x"}, {false, "a"}, {true, "y\n"}},
			}
			k := mc.Choose(len(orders), "order")
			r := process(fmt.Sprint(orders[k]), orders[k], setup{}, plain, 0)
			mc.Outcome(fmt.Sprint(k, r.lines, env.W.Output))
		}},
		{Name: "slow", Weight: 2, What: "a command that pauses between its writes", Cfg: cfg, Body: func() {
			cs := []chunk{{false, "a"}, {false, "b\nc"}, {true, "x\n"}, {false, "\n"}}
			r := process("slow", cs, setup{}, plain, time.Second)
			mc.Outcome(fmt.Sprint(r.lines))
		}},
		{Name: "timeout", Weight: 2, What: "waiting ends with an error when its context does and the command goes on", Cfg: cfg, Body: func() {
			cs := []chunk{{false, "a\n"}, {true, "x\n"}}
			hang := time.Duration(1+mc.Choose(3, "command ends at")) * time.Second
			limit := 2*time.Second + time.Millisecond*time.Duration(mc.Choose(2, "limit"))
			how := mc.Choose(2, "cancel or timeout")
			env.Reset(&env.World{Child: func(p *env.Proc) {
				for _, c := range cs {
					if c.err {
						p.Stderr(c.s)
					} else {
						p.Stdout(c.s)
					}
				}
				p.Sleep(hang)
				p.Exit(0)
			}})
			bus := eventbus.New()
			r := listen(bus)
			cmd := env.Command("prog")
			l, err := proc.NewLogProcessor(bus, proc.WithCommand(cmd))
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				mc.Fail("create", "%v", err)
			}
			ctx, cancel := mc.WithCancel(context.Background())
			if how == 1 {
				ctx, cancel = mc.WithTimeout(context.Background(), limit)
			} else {
				mc.GoNamed("canceller", func() { mc.Sleep(limit); cancel() })
			}
			defer cancel()
			err = l.Wait(ctx)
			if err == nil && hang > limit || err != nil && hang < limit {
				mc.Fail("wait", "waiting %v for a command of %v: %v", limit, hang, err)
			}
			if d := mc.Elapsed(); d > limit || d > hang {
				mc.Fail("wait", "waiting %v for a command of %v took %v", limit, hang, d)
			}
			mc.Settle()
			verify("timeout", setup{}, cs, r)
			mc.Outcome(fmt.Sprint(hang, limit, err))
		}},
		{Name: "failing-sink", Weight: 2, What: "standard output cannot be written: all events are still published and the other stream is echoed", Cfg: cfg, Body: func() {
			cs := []chunk{{false, "a\nb\n"}, {true, "x\n"}}
			env.Reset(&env.World{Child: func(p *env.Proc) {
				p.Stdout("a\nb\n")
				p.Stderr("x\n")
				p.Exit(0)
			}})
			env.Stdout.WriteErr = errors.New("broken pipe")
			bus := eventbus.New()
			r := listen(bus)
			cmd := env.Command("prog")
			l, err := proc.NewLogProcessor(bus, proc.WithCommand(cmd))
			if err == nil {
				err = cmd.Start()
			}
			if err == nil {
				err = l.Wait(context.Background())
			}
			if err != nil {
				mc.Fail("wait", "%v", err)
			}
			mc.Settle()
			verify("failing sink", setup{noStdout: true}, cs, r)
			mc.Outcome(fmt.Sprint(len(r.errs)))
		}},
		{Name: "bus-shutdown", Weight: 2, What: "the bus shuts down at any time: everything is still echoed and waiting succeeds", Cfg: cfg, Body: func() {
			cs := []chunk{{false, "a\nb\n"}, {true, "x\n"}}
			env.Reset(&env.World{Child: func(p *env.Proc) {
				p.Stdout("a\nb\n")
				p.Stderr("x\n")
				p.Exit(0)
			}})
			bus := eventbus.New()
			r := listen(bus)
			cmd := env.Command("prog")
			l, err := proc.NewLogProcessor(bus, proc.WithCommand(cmd))
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				mc.Fail("create", "%v", err)
			}
			var j lib.Join
			j.Go("shutdown", func() {
				if err := bus.Shutdown(context.Background()); err != nil {
					mc.Fail("shutdown", "%v", err)
				}
			})
			if err := l.Wait(context.Background()); err != nil {
				mc.Fail("wait", "%v", err)
			}
			j.Wait()
			mc.Settle()
			got := r.lines
			verifyEcho("bus shutdown", setup{}, cs)
			left := map[string]int{"a": 1, "b": 1, "x": 1}
			for _, x := range got {
				if left[x]--; left[x] < 0 {
					mc.Fail("events", "log events %q", got)
				}
			}
			if lv := mc.Live(); len(lv) > 0 {
				mc.Fail("leak", "still running: %v", lv)
			}
			mc.Outcome(fmt.Sprint(got))
		}},
	})
}
