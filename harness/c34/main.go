//go:build go1.22

package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

const ms = time.Millisecond

// piece is what arrives on standard input, some time after the one before.
type piece struct {
	after time.Duration
	text  string
}

type run struct {
	desc   string
	pieces []piece
	end    int // 0: the input ends at once after the last piece, 1: a second later, 2: never
	pipe   bool
	child  func(p *env.Proc)
	room   int
	args   []string
	tune   func()
}

// do runs the client; sent is what has been taken from the pipe.
func (r run) do() (sent string) {
	r.send()
	return r.text()
}

func (r run) send() {
	in := make(chan []byte, 4096)
	monx.Prepare(&env.World{Child: r.child, PipeChunks: r.room}, monx.Args(r.args...)...)
	if r.pipe {
		env.Stdin.SetPipe(in)
	}
	if r.tune != nil {
		r.tune()
	}
	monx.Launch()
	if r.pipe {
		mc.GoNamed("producer", func() {
			for _, p := range r.pieces {
				if p.after > 0 {
					mc.Sleep(p.after)
				}
				mc.SendTo(in)([]byte(p.text))
			}
			switch r.end {
			case 1:
				mc.Sleep(time.Second)
				fallthrough
			case 0:
				mc.Close(in)
			}
		})
	}
	env.W.AwaitExit()
	if !env.W.Exited {
		mc.Fail("crash", "%s: the monitor died: %s", r.desc, env.W.Died)
	}
	if len(env.W.Procs) != 1 {
		mc.Fail("run", "%s: %d programs were run", r.desc, len(env.W.Procs))
	}
}

func (r run) text() string {
	var b strings.Builder
	for _, p := range r.pieces {
		b.WriteString(p.text)
	}
	return b.String()
}

// completed checks that the run was reported when and as the program ended.
func (r run) completed(code int) {
	p := env.W.Procs[0]
	if !p.Gone {
		mc.Fail("end", "%s: the monitor ended before the program", r.desc)
	}
	rs := monx.Received()
	ok, bad := len(monx.Of(rs, pb.ReportReason_Success)), len(monx.Of(rs, pb.ReportReason_Failure))
	for i := len(rs) - 1; i >= 0; i-- {
		if rs[i].ReportReason == pb.ReportReason_TimeWarning {
			rs = append(rs[:i:i], rs[i+1:]...)
		}
	}
	if ok != mcBit(code == 0) || bad != mcBit(code != 0) || len(rs) != 1 {
		mc.Fail("report", "%s: the program ended with status %d and these reports were sent: %s", r.desc, code, monx.Reasons(rs))
	}
	if int(rs[0].ExitCode) != code {
		mc.Fail("report", "%s: the program ended with status %d, reported %d", r.desc, code, rs[0].ExitCode)
	}
	if late := env.Elapsed() - p.Ended; late > 100*ms {
		mc.Fail("late", "%s: the monitor ended %v after the program", r.desc, late)
	}
}

func mcBit(b bool) int { return lib.Bit(b) }

func short(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q…%q (%d bytes)", s[:50], s[len(s)-50:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// read checks what the program read.
func (r run) read(want string, end bool) {
	p := env.W.Procs[0]
	if g := p.Input.String(); g != want {
		i := 0
		for i < len(g) && i < len(want) && g[i] == want[i] {
			i++
		}
		mc.Fail("input", "%s: the program read %s, the input was %s; they differ at %d", r.desc, short(g), short(want), i)
	}
	if p.InputEOF != end {
		mc.Fail("end of input", "%s: the program has seen the end of its input: %v, want %v", r.desc, p.InputEOF, end)
	}
}

func pattern(n, seed int) string {
	b := make([]byte, n)
	x := uint32(seed*2654435761 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return string(b)
}

var kinds = []string{"a\n", "b", "\x00\xff\r\n\n", pattern(40000, 1), strings.Repeat("line of text\n", 400)}

// cat copies its input to its output.
func cat(p *env.Proc) {
	for n := 0; p.ReadChunk(); {
		s := p.Input.String()
		p.Stdout(s[n:])
		n = len(s)
	}
	p.Exit(0)
}

// chunks: all sequences of chunks that arrive together or apart.
func chunks(c *lib.Cases) {
	depth := 4
	if c.Quick {
		depth = 3
	}
	for end := 0; end < 2; end++ {
		for gaps := 0; gaps < 2; gaps++ {
			c.Seqs(fmt.Sprintf("%d %d ", end, gaps), len(kinds), depth, func(seq []int) func() {
				return func() {
					r := run{desc: fmt.Sprintf("chunks %v, gaps %d, end %d", seq, gaps, end), pipe: true, end: end}
					var at []time.Duration
					total := time.Duration(0)
					for _, k := range seq {
						gap := time.Duration(gaps) * 1500 * ms
						total += gap
						r.pieces = append(r.pieces, piece{gap, kinds[k]})
						at = append(at, total)
					}
					// the program notes when it has read how much
					type mark struct {
						at time.Duration
						n  int
					}
					var marks []mark
					r.child = func(p *env.Proc) {
						n := 0
						for p.ReadChunk() {
							s := p.Input.String()
							marks = append(marks, mark{env.Elapsed(), len(s)})
							p.Stdout(s[n:])
							n = len(s)
						}
						p.Exit(3)
					}
					sent := r.do()
					r.read(sent, true)
					r.completed(3)
					n := 0
					for i, k := range seq {
						n += len(kinds[k])
						got := 0
						for _, m := range marks {
							if m.at <= at[i] {
								got = m.n
							}
						}
						if got < n {
							mc.Fail("late", "%s: %d bytes had arrived at %v, the program could read %d of them", r.desc, n, at[i], got)
						}
					}
					if want := total + time.Duration(end)*time.Second; env.Elapsed() > want+100*ms {
						mc.Fail("late", "%s: the input ended at %v, the run at %v", r.desc, want, env.Elapsed())
					}
					if g, w := monx.LinesOf(env.Stdout.Text()), monx.LinesOf(sent); !monx.SameLines(g, w) {
						mc.Fail("output", "%s: the output is %s, want %s", r.desc, monx.Short(g), monx.Short(w))
					}
					c.State("%d %d %v", end, gaps, seq)
					c.Step(len(seq) + 1)
				}
			})
		}
	}
}

var sizes = []int{0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073, 1 << 20, 1<<20 + 1}

// blocks: inputs of sizes around the sizes of buffers, in one or two pieces.
func blocks(c *lib.Cases) {
	for _, a := range sizes {
		for _, b := range sizes {
			if c.Quick && a > 70000 && b > 70000 {
				continue
			}
			c.Add(fmt.Sprint(a, b), func() {
				r := run{desc: fmt.Sprintf("blocks of %d and %d bytes", a, b), pipe: true, child: func(p *env.Proc) {
					p.ReadStdin()
					p.Exit(0)
				}}
				for i, n := range []int{a, b} {
					if n > 0 {
						r.pieces = append(r.pieces, piece{0, pattern(n, i+a+b)})
					}
				}
				r.read(r.do(), true)
				r.completed(0)
				c.State("%d %d", a, b)
				c.Step(2)
			})
		}
	}
}

// volume: more input than any buffer holds.
func volume(c *lib.Cases) {
	for _, mb := range []int{20, 70, 140} {
		if c.Quick && mb > 100 {
			continue
		}
		for _, size := range []int{4096, 1 << 18} {
			if size < 10000 && mb > 20 {
				continue
			}
			for end := 0; end < 2; end++ {
				c.Add(fmt.Sprint(mb, size, end), func() {
					block := pattern(size, mb)
					var wrong string
					total, n := 0, mb<<20/size
					if n > 4000 {
						n = 4000
					}
					r := run{desc: fmt.Sprintf("%d MB in pieces of %d bytes", mb, size), pipe: true, end: end}
					r.child = func(p *env.Proc) {
						for p.ReadChunk() {
							for got := p.Input.Bytes(); len(got) > 0 && wrong == ""; {
								k := size - total%size
								if k > len(got) {
									k = len(got)
								}
								if string(got[:k]) != block[total%size:total%size+k] {
									wrong = fmt.Sprintf("what is read is wrong after %d bytes", total)
								}
								total += k
								got = got[k:]
							}
							p.Input.Reset()
						}
						p.Exit(0)
					}
					for i := 0; i < n; i++ {
						r.pieces = append(r.pieces, piece{0, block})
					}
					r.send()
					if wrong != "" || total != n*size {
						mc.Fail("input", "%s: the program read %d of %d bytes %s", r.desc, total, n*size, wrong)
					}
					r.completed(0)
					c.State("%d %d %d", mb, size, end)
					c.Step(n)
				})
			}
		}
	}
}

// readers: programs that do not read all of their input.
func readers(c *lib.Cases) {
	names := []string{"exits", "closes its input, writes and exits", "stops reading, writes and exits", "writes while it reads slowly", "reads all and fails"}
	for kind := range names {
		for reads := 0; reads < 4; reads++ {
			for pieces := 0; pieces < 6; pieces++ {
				for end := 0; end < 3; end++ {
					for room := 1; room < 4; room += 2 {
						for _, gap := range []time.Duration{0, 700 * ms} {
							c.Add(fmt.Sprint(kind, reads, pieces, end, room, gap), func() {
								r := run{desc: fmt.Sprintf("a program that reads %d times and %s, %d pieces of input, %v apart, end %d, room %d", reads, names[kind], pieces, gap, end, room), pipe: true, end: end, room: room}
								for i := 0; i < pieces; i++ {
									r.pieces = append(r.pieces, piece{gap, fmt.Sprintf("%d:%s\n", i, strings.Repeat("x", 20000))})
								}
								if kind == 4 && end == 2 || reads > pieces && end == 2 {
									// the program would wait for ever
									return
								}
								code, out := kind, ""
								say := func(p *env.Proc, n int) {
									for i := 0; i < n; i++ {
										s := fmt.Sprintf("out %d\n", i)
										p.Stdout(s)
										p.Stderr(s)
										out += s
									}
								}
								r.child = func(p *env.Proc) {
									for i := 0; i < reads; i++ {
										if !p.ReadChunk() {
											break
										}
										if kind == 3 {
											p.Sleep(time.Second)
											say(p, 1)
										}
									}
									switch kind {
									case 1:
										p.CloseStdin()
										p.Sleep(2 * time.Second)
										say(p, 3)
									case 2:
										say(p, 10)
										p.Sleep(2 * time.Second)
										say(p, 3)
									case 4:
										p.ReadStdin()
									}
									p.Exit(code)
								}
								sent := r.do()
								p := env.W.Procs[0]
								if g := p.Input.String(); !strings.HasPrefix(sent, g) || kind == 4 && g != sent {
									mc.Fail("input", "%s: the program read %s, the input was %s", r.desc, short(g), short(sent))
								}
								for i, f := range []*env.File{env.Stdout, env.Stderr} {
									if f.Text() != out {
										mc.Fail("output", "%s: the output %d is %s, want %s", r.desc, i+1, short(f.Text()), short(out))
									}
								}
								r.completed(code)
								c.State("%d %d %d %d %d", kind, reads, pieces, end, room)
								c.Step(reads + pieces + 1)
							})
						}
					}
				}
			}
		}
	}
}

// limits: input that never ends does not keep a run alive.
func limits(c *lib.Cases) {
	for kind := 0; kind < 3; kind++ {
		for end := 0; end < 3; end++ {
			for pieces := 0; pieces < 4; pieces++ {
				for how := 0; how < 3; how++ {
					c.Add(fmt.Sprint(kind, end, pieces, how), func() {
						r := run{desc: fmt.Sprintf("a program (kind %d) that has to be killed, %d pieces, end %d, way %d", kind, pieces, end, how), pipe: true, end: end, room: 1}
						for i := 0; i < pieces; i++ {
							r.pieces = append(r.pieces, piece{400 * ms, fmt.Sprintf("piece %d\n", i)})
						}
						r.child = func(p *env.Proc) {
							p.Mem(3000)
							switch kind {
							case 0: // reads everything and goes on
								for p.ReadChunk() {
								}
							case 1: // reads once
								p.ReadChunk()
							}
							p.Forever()
						}
						at := 2500 * ms
						switch how {
						case 0:
							r.args = []string{"--timeout-kill", "2500ms"}
						case 1:
							r.args = []string{"--memory-kill", "2M"}
							at = time.Second
						case 2:
							r.tune = func() {
								mc.GoNamed("user", func() { mc.Sleep(2500 * ms); env.W.Kill(syscall.SIGTERM) })
							}
						}
						sent := r.do()
						p := env.W.Procs[0]
						if g := p.Input.String(); !strings.HasPrefix(sent, g) {
							mc.Fail("input", "%s: the program read %s, the input was %s", r.desc, short(g), short(sent))
						}
						rs := monx.Received()
						if len(rs) != 1 || rs[0].ReportReason != pb.ReportReason_Killed {
							mc.Fail("report", "%s: reports %s", r.desc, monx.Reasons(rs))
						}
						if e := env.Elapsed(); e < at || e > at+100*ms {
							mc.Fail("late", "%s: the run ended at %v, due %v", r.desc, e, at)
						}
						c.State("%d %d %d %d", kind, end, pieces, how)
						c.Step(1)
					})
				}
			}
		}
	}
}

// terminal: input that is not a pipe is not taken, and the program sees the end.
func terminal(c *lib.Cases) {
	for mode := 0; mode < 3; mode++ {
		for kind := 0; kind < 3; kind++ {
			c.Add(fmt.Sprint(mode, kind), func() {
				r := run{desc: fmt.Sprintf("input mode %d, program %d", mode, kind), child: func(p *env.Proc) {
					switch kind {
					case 0:
						p.ReadStdin()
					case 1:
						p.Stdout("x\n")
						p.ReadStdin()
						p.Stdout("y\n")
					case 2:
						p.Sleep(2 * time.Second)
					}
					p.Exit(kind)
				}}
				typed := make(chan []byte, 3)
				r.tune = func() {
					switch mode {
					case 1: // what is typed is for the shell
						env.Stdin.SetMode(os.ModeDevice|os.ModeCharDevice|0o620, typed)
						mc.SendTo(typed)([]byte("ls\n"))
						mc.SendTo(typed)([]byte("exit\n"))
					case 2: // nothing is known about standard input
						env.Stdin.StatErr = syscall.EBADF
					}
				}
				r.do()
				if kind < 2 {
					r.read("", true)
					if env.Elapsed() > 100*ms {
						mc.Fail("late", "%s: the run took %v", r.desc, env.Elapsed())
					}
				}
				if mode == 1 {
					for i := 0; i < 2; i++ {
						if mc.Select(true, mc.RecvCase(typed)) < 0 {
							mc.Fail("terminal", "%s: what was typed was taken", r.desc)
						}
					}
				}
				r.completed(kind)
				c.State("%d %d", mode, kind)
				c.Step(1)
			})
		}
	}
}

// broken: standard input fails after some pieces; they are passed on.
func broken(c *lib.Cases) {
	for pieces := 0; pieces < 4; pieces++ {
		for big := 0; big < 2; big++ {
			for after := 0; after < 2; after++ {
				c.Add(fmt.Sprint(pieces, big, after), func() {
					r := run{desc: fmt.Sprintf("%d pieces (kind %d), then reading fails %d s later", pieces, big, after), pipe: true, end: after, child: cat}
					for i := 0; i < pieces; i++ {
						r.pieces = append(r.pieces, piece{0, fmt.Sprintf("%d:%s\n", i, strings.Repeat("x", 50000*big))})
					}
					r.tune = func() { env.Stdin.ReadErr = syscall.EIO }
					sent := r.do()
					r.read(sent, true)
					r.completed(0)
					if g := env.Stdout.Text(); g != sent {
						mc.Fail("output", "%s: the output is %s, want %s", r.desc, short(g), short(sent))
					}
					c.State("%d %d %d", pieces, big, after)
					c.Step(1)
				})
			}
		}
	}
}

// copying: schedules of input, program and output.
func copying(r run, all bool) func() {
	return func() {
		r := r
		r.pipe = true
		code := 0
		sent := r.do()
		p := env.W.Procs[0]
		g := p.Input.String()
		if !strings.HasPrefix(sent, g) || all && (g != sent || !p.InputEOF) {
			mc.Fail("input", "%s: the program read %q (end %v), the input was %q", r.desc, g, p.InputEOF, sent)
		}
		if o := env.Stdout.Text(); o != g {
			mc.Fail("output", "%s: the program wrote %q, the output is %q", r.desc, g, o)
		}
		r.completed(code)
		mc.Outcome(fmt.Sprintf("%q", g))
	}
}

func main() {
	cfg := mc.Config{Race: true, LeaksOK: true}
	lib.Main("C34", []lib.Scenario{
		{Name: "chunks", Weight: 4, What: "all sequences of up to 3 (4) chunks of 5 kinds, together or apart, with the end at once or later, copied by the program", Seq: chunks},
		{Name: "blocks", Weight: 4, What: "all pairs of 29 sizes around the sizes of buffers", Seq: blocks},
		{Name: "volume", What: "20 and 70 (140) MB of input", Seq: volume},
		{Name: "readers", Weight: 3, What: "programs that read 0 to 3 times and then exit, close, stop or go on, against 0 to 5 pieces that end at once, later or never", Seq: readers},
		{Name: "limits", What: "programs that are killed while their input is open, unread or ended", Seq: limits},
		{Name: "terminal", What: "standard input that is a terminal or unknown", Seq: terminal},
		{Name: "broken", What: "standard input that fails", Seq: broken},
		{Name: "copy", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of two pieces that a program copies", Body: copying(run{desc: "copy", child: cat, room: 1, pieces: []piece{{0, "a\n"}, {0, "b\n"}}}, true)},
		{Name: "slow-copy", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of pieces that arrive while a program copies", Body: copying(run{desc: "slow copy", child: cat, room: 1, end: 1, pieces: []piece{{time.Second, "a\n"}, {time.Second, "b\n"}}}, true)},
		{Name: "early-end", Cfg: cfg, MaxBound: 3, What: "schedules of a program that ends after one piece", Body: copying(run{desc: "early end", room: 1, pieces: []piece{{0, "a\n"}, {0, "b\n"}}, child: func(p *env.Proc) {
			p.ReadChunk()
			p.Stdout(p.Input.String())
			p.Exit(0)
		}}, false)},
		{Name: "open-end", Cfg: cfg, MaxBound: 3, What: "schedules of a program that ends while its input is open", Body: copying(run{desc: "open end", room: 1, end: 2, pieces: []piece{{0, "a\n"}}, child: func(p *env.Proc) {
			p.ReadChunk()
			p.Stdout(p.Input.String())
			p.Exit(0)
		}}, false)},
		{Name: "copy-and-check", Cfg: cfg, MaxBound: 3, Weight: 3, What: "schedules of pieces that are copied at the time of a memory check and a time warning", Body: copying(run{desc: "copy and check", child: func(p *env.Proc) {
			p.Stderr("e\n")
			cat(p)
		}, room: 1, args: []string{"--timeout-warn", "1s", "--memory-warn", "1G", "--no-notify-on-failure", "--rule", "nothing"}, pieces: []piece{{0, "a\n"}, {time.Second, "b\n"}, {0, "c\n"}}}, true)},
	})
}
