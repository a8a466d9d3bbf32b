//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

var long = strings.Repeat("0123456789abcdef", 70000/16)

// chunks that a program may write at once.
var chunks = []string{"a", "\n", "bc\n", "d\ne", "\xff\x00\n", "\r\n", "", long}

// check compares what came through with what the program wrote.
func check(desc string, out, err string) {
	for i, x := range []struct {
		name, wrote, got string
	}{{"standard output", out, env.Stdout.Text()}, {"standard error", err, env.Stderr.Text()}} {
		got := x.got
		if i == 0 {
			// the client's own messages do not count
			got = strings.TrimSuffix(got, env.W.Printed.String())
		}
		if got != "" && !strings.HasSuffix(got, "\n") {
			mc.Fail("echo", "%s: the last line on %s is not complete: %s", desc, x.name, monx.Short(got))
		}
		if g, w := monx.LinesOf(got), monx.LinesOf(x.wrote); !monx.SameLines(g, w) {
			mc.Fail("echo", "%s: on %s came %s, the program wrote %s", desc, x.name, monx.Short(g), monx.Short(w))
		}
	}
	if !env.W.Exited || env.W.Code != 0 {
		mc.Fail("exit", "%s: exited %v with %d, died %q, printed %s", desc, env.W.Exited, env.W.Code, env.W.Died, env.W.Printed.String())
	}
}

type ev struct {
	fd, chunk int
	gap       bool
}

// play runs a program that writes and checks.
func play(desc string, evs []ev, exit int, opts ...string) {
	var out, err strings.Builder
	monx.Main(&env.World{Child: func(p *env.Proc) {
		for _, e := range evs {
			if e.gap {
				p.Sleep(time.Second)
			}
			c := chunks[e.chunk]
			if e.fd == 1 {
				if !p.Stdout(c) {
					mc.Fail("pipe", "%s: writing failed", desc)
				}
				out.WriteString(c)
			} else {
				if !p.Stderr(c) {
					mc.Fail("pipe", "%s: writing failed", desc)
				}
				err.WriteString(c)
			}
		}
		p.Exit(exit)
	}}, monx.Args(opts...)...)
	check(desc, out.String(), err.String())
}

// writes: all sequences of writes to both streams.
func writes(c *lib.Cases) {
	depth := 3
	if !c.Quick {
		depth = 4
	}
	n := len(chunks)
	c.Seqs("", 2*n, depth, func(seq []int) func() {
		return func() {
			var evs []ev
			for _, x := range seq {
				evs = append(evs, ev{1 + x/n, x % n, false})
			}
			play(fmt.Sprintf("writes %v", seq), evs, len(seq)%3)
			c.State("%q %q", shape(env.Stdout.Text()), shape(env.Stderr.Text()))
			c.Step(len(seq))
		}
	})
}

func shape(s string) string { return strings.ReplaceAll(s, long, "L") }

// streams: one stream at a time, longer sequences, with pauses.
func oneStream(c *lib.Cases) {
	depth := 4
	if !c.Quick {
		depth = 5
	}
	use := []int{0, 1, 2, 3, 7}
	n := len(use)
	for fd := 1; fd <= 2; fd++ {
		c.Seqs(fmt.Sprint(fd, " "), n, depth, func(seq []int) func() {
			return func() {
				var evs []ev
				for i, x := range seq {
					evs = append(evs, ev{fd, use[x], i%2 == 1})
				}
				play(fmt.Sprintf("stream %d, writes %v", fd, seq), evs, 0, "--stdout-history", "1", "--stderr-history", "2", "--rule", "d")
				c.State("%d %q", fd, shape(env.Stdout.Text()+env.Stderr.Text()))
				c.Step(len(seq))
			}
		})
	}
}

// counts: many lines, in one go or each on its own, with other settings.
func counts(c *lib.Cases) {
	ns := []int{99, 255, 1001, 4097, 10100, 33000, 66000}
	if !c.Quick {
		ns = append(ns, 140000, 1100000)
	}
	for _, n := range ns {
		for kind := 0; kind < 3; kind++ {
			for set := 0; set < 3; set++ {
				if set > 0 && n > 70000 || set == 2 && n > 40000 {
					continue
				}
				c.Step(n)
				c.Add(fmt.Sprint(n, kind, set), func() {
					var out, err strings.Builder
					monx.Main(&env.World{Child: func(p *env.Proc) {
						say := func(fd int, t string) {
							if fd == 1 {
								p.Stdout(t)
								out.WriteString(t)
							} else {
								p.Stderr(t)
								err.WriteString(t)
							}
						}
						var b strings.Builder
						for i := 0; i < n; i++ {
							l := []string{"a\n", "\n", "line %d\n"}[kind]
							if kind == 2 {
								l = fmt.Sprintf(l, i)
							}
							b.WriteString(l)
							if b.Len() > 1<<14 || i == n-1 || set == 2 && i%9 == 0 {
								say(1, b.String())
								if i%2 == 0 || i == n-1 {
									say(2, b.String())
								}
								b.Reset()
							}
						}
					}}, monx.Args([][]string{nil, {"--stdout-history", "-1", "--timeout-warn", "1s"}, {"--rule", "line 777$", "--daemon"}}[set]...)...)
					check(fmt.Sprintf("%d lines of kind %d, setting %d", n, kind, set), out.String(), err.String())
					c.State("%d %d %d", n, kind, set)
				})
			}
		}
	}
}

// lengths: lines of lengths around buffer sizes.
func lengths(c *lib.Cases) {
	sizes := []int{0, 1, 2, 100, 4094, 4095, 4096, 4097, 8191, 8192, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073, 1 << 20, 1<<20 + 1, 3 << 20, 17 << 20}
	if !c.Quick {
		sizes = append(sizes, 65<<20)
	}
	for _, n := range sizes {
		for _, piece := range []int{0, 4096, 65536} {
			for end := 0; end < 3; end++ {
				if n > 4<<20 && (piece == 4096 || end == 2) {
					continue
				}
				c.Add(fmt.Sprint(n, piece, end), func() {
					text := "first\n" + strings.Repeat("x", n) + []string{"", "\n", "\nlast\n"}[end]
					monx.Main(&env.World{Child: func(p *env.Proc) {
						for s := text; s != ""; {
							k := len(s)
							if piece > 0 && piece < k {
								k = piece
							}
							if !p.Stdout(s[:k]) || !p.Stderr(s[:k]) {
								mc.Fail("pipe", "line of %d bytes: writing failed", n)
							}
							s = s[k:]
						}
					}}, monx.Args()...)
					check(fmt.Sprintf("line of %d bytes in pieces of %d", n, piece), text, text)
					c.State("%d %d %d", n, piece, end)
					c.Step(1)
				})
			}
		}
	}
}

// texts: all lines of one and two bytes, and lines over a wider alphabet.
func texts(c *lib.Cases) {
	for _, ctx := range []string{"", "json{\"a\":1}"} {
		for b := 0; b < 256; b++ {
			c.Add(fmt.Sprint("two bytes ", b, ctx), func() {
				var t strings.Builder
				for x := 0; x < 256; x++ {
					t.WriteString(ctx + string([]byte{byte(b), byte(x)}) + "\n")
				}
				// no line follows the last one here
				t.WriteString(string([]byte{byte(b)}))
				text := t.String()
				monx.Main(&env.World{Child: func(p *env.Proc) {
					p.Stdout(text)
					p.Stderr(text)
				}}, monx.Args()...)
				check(fmt.Sprintf("all lines of two bytes that begin with %q", byte(b)), text, text)
				c.State("%d %s", b, ctx)
				c.Step(257)
			})
		}
	}
	alpha := []string{" ", "\t", "%d", "\\", "\x00", "\x1b[0m", "\"", "\r", "\u2028", "\xff", "<a>", "z"}
	depth := 3
	if !c.Quick {
		depth = 4
	}
	c.Seqs("text ", len(alpha), depth, func(seq []int) func() {
		return func() {
			t := ""
			for _, x := range seq {
				t += alpha[x]
			}
			out, err := t+"\n"+t+t+"\n"+t, t
			monx.Main(&env.World{Child: func(p *env.Proc) {
				p.Stdout(out)
				p.Stderr(err)
			}}, monx.Args("--rule", "z")...)
			check(fmt.Sprintf("text %q", t), out, err)
			c.State("%q", t)
			c.Step(2)
		}
	})
}

// many: more lines than any history, on both streams.
func many(c *lib.Cases) {
	for _, n := range []int{29, 30, 31, 32, 33, 64, 100, 200} {
		for _, opts := range [][]string{nil, {"--rule", "1"}, {"--stdout-history", "0", "--stderr-history", "1"}} {
			c.Add(fmt.Sprint(n, opts), func() {
				var want string
				monx.Main(&env.World{Child: func(p *env.Proc) {
					for i := 0; i < n; i++ {
						l := fmt.Sprintf("line %d\n", i)
						want += l
						p.Stdout(l)
						p.Stderr(l)
					}
				}}, monx.Args(opts...)...)
				check(fmt.Sprintf("%d lines with %v", n, opts), want, want)
				c.State("%d %v", n, opts)
				c.Step(n)
			})
		}
	}
}

// concurrent: all schedules of two streams, with sinks, memory checks and reports.
func concurrent(capacity int, opts ...string) func() {
	return func() {
		var out, err string
		monx.Main(&env.World{PipeChunks: capacity, Child: func(p *env.Proc) {
			w := func(fd int, s string) {
				if fd == 1 {
					out += s
					p.Stdout(s)
				} else {
					err += s
					p.Stderr(s)
				}
			}
			w(1, "o1\no")
			w(2, "e1\n")
			w(1, "2\n")
			w(2, "e2")
		}}, monx.Args(opts...)...)
		check("concurrent streams", out, err)
		mc.Outcome(fmt.Sprint(env.W.Output))
	}
}

// chooseChild: the program decides at every step what to do.
func chooseChild() {
	var out, err string
	monx.Main(&env.World{PipeChunks: 1, Child: func(p *env.Proc) {
		for i := 0; i < 3; i++ {
			switch mc.Choose(5, "program") {
			case 0:
				return
			case 1:
				out += "o\n"
				p.Stdout("o\n")
			case 2:
				err += "e\n"
				p.Stderr("e\n")
			case 3:
				p.CloseStdout()
				p.Sleep(time.Second)
				p.Exit(0)
			case 4:
				out += "x"
				p.Stdout("x")
			}
		}
	}}, monx.Args()...)
	check("program", out, err)
	mc.Outcome(out + "|" + err)
}

func main() {
	cfg := mc.Config{LeaksOK: true}
	lib.Main("C01", []lib.Scenario{
		{Name: "writes", Weight: 3, What: "all sequences of 3 (4) writes of 8 different chunks to either stream", Seq: writes},
		{Name: "one-stream", Weight: 3, What: "all sequences of 4 (5) writes of 5 different chunks with pauses, small histories and a rule", Seq: oneStream},
		{Name: "counts", What: "up to 66 000 (1 100 000) lines on both streams, with three settings", Seq: counts},
		{Name: "lengths", What: "lines of lengths around all buffer sizes up to 17 MB (65 MB), in three chunkings and with three ends", Seq: lengths},
		{Name: "texts", What: "all lines of one and two bytes, all texts of 3 (4) pieces of an alphabet of 12", Seq: texts},
		{Name: "many", What: "up to 200 lines with different histories and rules", Seq: many},
		{Name: "concurrent", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of a program writing to both streams with all-buffering pipes", Body: concurrent(0)},
		{Name: "concurrent-small-pipe", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of a program writing to both streams, pipes that hold one write", Body: concurrent(1)},
		{Name: "concurrent-rule", Cfg: cfg, MaxBound: 3, Weight: 2, What: "the same with a rule that matches", Body: concurrent(0, "--rule", "1")},
		{Name: "program", Cfg: cfg, MaxBound: 3, Weight: 2, What: "all programs of three steps and their schedules", Body: chooseChild},
	})
}
