//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

// chunk is something that a command writes.
type chunk struct {
	fd   int
	text string
}

var chunks = []chunk{
	{1, "a%d\n"},
	{1, "\n"},
	{1, "p%d"},
	{1, "x%d\r\nb%d\n"},
	{2, "a%d\n"},
	{2, "\n"},
	{2, "p%d"},
	{2, "y%d\nz%d\n"},
}

// last are the last n lines of a text.
func last(text string, n int) []string {
	l := monx.LinesOf(text)
	if n < 0 {
		n = 0
	}
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return l
}

// full is the text up to the last complete line.
func full(text string) string { return text[:strings.LastIndex(text, "\n")+1] }

type wrote struct {
	at time.Duration
	chunk
}

// check compares the histories of all reports with what was written before.
func check(desc string, ws []wrote, n1, n2 int) {
	if !env.W.Exited {
		mc.Fail("crash", "%s: the monitor died: %s", desc, env.W.Died)
	}
	ends := 0
	for _, r := range monx.Received() {
		var out, err string
		for _, w := range ws {
			if w.at <= r.A.At {
				if w.fd == 1 {
					out += w.text
				} else {
					err += w.text
				}
			}
		}
		switch r.ReportReason {
		case pb.ReportReason_Success, pb.ReportReason_Failure:
			ends++
		default:
			out, err = full(out), full(err)
		}
		for i, x := range []struct {
			got  []string
			text string
			n    int
		}{{r.Stdout, out, n1}, {r.Stderr, err, n2}} {
			if x.n < 0 {
				continue
			}
			if want := last(x.text, x.n); !monx.SameLines(x.got, want) {
				mc.Fail("history", "%s: the %s report of %v has %s as history of stream %d, want the last %d lines %s", desc, r.ReportReason, r.A.At, monx.Short(x.got), i+1, x.n, monx.Short(want))
			}
		}
	}
	if ends != 1 {
		mc.Fail("end", "%s: %d completion reports", desc, ends)
	}
}

func options(n1, n2 int) []string {
	var o []string
	if n1 != 30 {
		o = append(o, fmt.Sprintf("--stdout-history=%d", n1))
	}
	if n2 != 30 {
		o = append(o, fmt.Sprintf("--stderr-history=%d", n2))
	}
	return o
}

// play runs a command that writes a chunk every second.
func play(desc string, cs []chunk, n1, n2 int, gap time.Duration, opts ...string) {
	var ws []wrote
	monx.Main(&env.World{Child: func(p *env.Proc) {
		p.Mem(2000)
		for i, c := range cs {
			if strings.Contains(c.text, "%") {
				c.text = fmt.Sprintf(strings.ReplaceAll(c.text, "%d", "%[1]d"), i)
			}
			ws = append(ws, wrote{env.Elapsed(), c})
			if c.fd == 1 {
				p.Stdout(c.text)
			} else {
				p.Stderr(c.text)
			}
			if gap > 0 {
				p.Sleep(gap)
			}
		}
	}}, monx.Args(append(options(n1, n2), opts...)...)...)
	check(desc, ws, n1, n2)
}

var pairs = [][2]int{{0, 1}, {1, 0}, {1, 2}, {2, 3}, {3, 30}}

// sequences: all sequences of chunks, with reports in between.
func sequences(c *lib.Cases) {
	depth := 4
	if !c.Quick {
		depth = 5
	}
	for _, n := range pairs {
		c.Seqs(fmt.Sprint(n, " "), len(chunks), depth, func(idx []int) func() {
			return func() {
				var cs []chunk
				for _, i := range idx {
					cs = append(cs, chunks[i])
				}
				play(fmt.Sprintf("chunks %v", idx), cs, n[0], n[1], 600*time.Millisecond, "--rule", "a", "--timeout-warn", "800ms", "--memory-warn", "1M")
				c.State("%v %v", n, idx)
				c.Step(len(cs))
			}
		})
	}
}

// sizes: all histories and numbers of lines.
func sizes(c *lib.Cases) {
	max, lines := 12, 30
	if !c.Quick {
		max, lines = 35, 75
	}
	for n := 0; n <= max; n++ {
		for k := 0; k <= lines; k++ {
			for _, fd := range []int{1, 2} {
				c.Add(fmt.Sprint(n, k, fd), func() {
					var cs []chunk
					for i := 0; i < k; i++ {
						cs = append(cs, chunk{fd, "line %d\n"})
					}
					n1, n2 := n, 2
					if fd == 2 {
						n1, n2 = 2, n
					}
					play(fmt.Sprintf("%d lines", k), cs, n1, n2, 0)
					c.State("%d %d %d", n, k, fd)
					c.Step(k)
				})
			}
		}
	}
}

// big: the default, large, and negative histories.
func big(c *lib.Cases) {
	for _, n := range []int{-1, -30, 29, 30, 31, 100, 1000, 1 << 40} {
		for _, k := range []int{0, 1, 28, 29, 30, 31, 32, 59, 60, 61, 99, 100, 101, 102, 250} {
			for both := 0; both < 3; both++ {
				c.Add(fmt.Sprint(n, k, both), func() {
					var cs []chunk
					for i := 0; i < k; i++ {
						if both != 1 {
							cs = append(cs, chunk{1, "out %d\n"})
						}
						if both != 0 {
							cs = append(cs, chunk{2, "err %d\n"})
						}
					}
					if k < 70 {
						play(fmt.Sprintf("%d lines", k), cs, n, n, 100*time.Millisecond, "--rule", "(out|err) .*7", "--timeout-warn", "550ms")
					} else {
						play(fmt.Sprintf("%d lines", k), cs, n, n, 0)
					}
					c.State("%d %d %d", n, k, both)
					c.Step(k)
				})
			}
		}
	}
}

// large: histories of thousands of lines.
func large(c *lib.Cases) {
	for _, n := range []int{-1, 127, 128, 255, 999, 1000, 1001, 1024, 2500, 9000, 65536, 70000} {
		for _, k := range []int{256, 1400, 2600, 9500, 70500} {
			if k > 10000 && (c.Quick && n != 1000 || n > 0 && n < 500 || n == 2500) {
				continue
			}
			c.Step(k)
			c.Add(fmt.Sprint(n, k), func() {
				var out, err strings.Builder
				for i := 0; i < k; i++ {
					fmt.Fprintf(&out, "%d\n", i)
					if i%3 > 0 {
						fmt.Fprintf(&err, "e%d\n", i)
					}
				}
				content(fmt.Sprintf("%d lines", k), out.String(), err.String(), n)
				c.State("%d %d", n, k)
			})
		}
	}
}

// one replacement stands for any number of them.
func norm(l []string) []string {
	var out []string
	for _, s := range l {
		s = strings.ToValidUTF8(s, "\uFFFD")
		for strings.Contains(s, "\uFFFD\uFFFD") {
			s = strings.ReplaceAll(s, "\uFFFD\uFFFD", "\uFFFD")
		}
		out = append(out, s)
	}
	return out
}

// content writes texts to both streams and compares the histories at the end.
func content(desc string, out, err string, n int) {
	monx.Main(&env.World{Child: func(p *env.Proc) {
		p.Stdout(out)
		p.Stderr(err)
	}}, monx.Args(options(n, n)...)...)
	rs := monx.Received()
	if len(rs) != 1 {
		mc.Fail("end", "%s: reports %s", desc, monx.Reasons(rs))
	}
	for i, x := range [][2][]string{{rs[0].Stdout, last(out, n)}, {rs[0].Stderr, last(err, n)}} {
		if !monx.SameLines(norm(x[0]), norm(x[1])) {
			mc.Fail("history", "%s: history of stream %d is %s, want %s", desc, i+1, monx.Short(x[0]), monx.Short(x[1]))
		}
	}
}

// texts: contents of lines.
func texts(c *lib.Cases) {
	for b := 0; b < 256; b++ {
		c.Add(fmt.Sprint("two bytes ", b), func() {
			var t strings.Builder
			for x := 0; x < 256; x++ {
				t.WriteString(string([]byte{byte(b), byte(x)}) + "\n")
			}
			t.WriteString(string([]byte{byte(b)}))
			content(fmt.Sprintf("all lines of two bytes that begin with %q", byte(b)), t.String(), t.String(), 400)
			c.State("%d", b)
			c.Step(257)
		})
	}
	for _, n := range []int{100, 4096, 65535, 65536, 65537, 1 << 17, 1 << 20, 5 << 20} {
		c.Add(fmt.Sprint("long ", n), func() {
			l := strings.Repeat("0123456789", n/10+1)[:n]
			content(fmt.Sprintf("lines of %d bytes", n), l+"\n"+l+"x\ny\n"+l, "z\n"+l, 3)
			c.State("%d", n)
			c.Step(4)
		})
	}
	alpha := []string{" ", "\t", "%d", "\\", "\x00", "\x1b[0m", "\"", "\r", "\u2028", "\xff", "<a>", "z"}
	depth := 2
	if !c.Quick {
		depth = 4
	}
	c.Seqs("text ", len(alpha), depth, func(seq []int) func() {
		return func() {
			t := ""
			for _, x := range seq {
				t += alpha[x]
			}
			content(fmt.Sprintf("text %q", t), t+"\n"+t+t+"\n"+t, t, 3)
			c.State("%q", t)
			c.Step(2)
		}
	})
}

// body: schedules of lines of both streams.
func body(n1, n2 int, cs []chunk, opts ...string) func() {
	return func() {
		monx.Main(&env.World{Child: func(p *env.Proc) {
			for _, c := range cs {
				if c.fd == 1 {
					p.Stdout(c.text)
				} else {
					p.Stderr(c.text)
				}
			}
		}}, monx.Args(append(options(n1, n2), opts...)...)...)
		for _, r := range monx.Received() {
			out, err := "", ""
			for _, c := range cs {
				if c.fd == 1 {
					out += c.text
				} else {
					err += c.text
				}
			}
			for _, x := range []struct {
				got  []string
				text string
				n    int
			}{{r.Stdout, out, n1}, {r.Stderr, err, n2}} {
				// the last lines at some time, of all at the end
				ok := false
				l := monx.LinesOf(x.text)
				for i := 0; i <= len(l); i++ {
					j := i - x.n
					if j < 0 {
						j = 0
					}
					if monx.SameLines(x.got, l[j:i]) && (i == len(l) || r.ReportReason == pb.ReportReason_Alert) {
						ok = true
					}
				}
				if !ok {
					mc.Fail("history", "the %s report has the history %q of %q, which is never the last %d lines", r.ReportReason, x.got, l, x.n)
				}
			}
			mc.Outcome(fmt.Sprintf("%s %q %q", r.ReportReason, r.Stdout, r.Stderr))
		}
		if len(monx.Of(monx.Received(), pb.ReportReason_Success)) != 1 {
			mc.Fail("end", "%s", monx.Reasons(monx.Received()))
		}
	}
}

func main() {
	cfg := mc.Config{LeaksOK: true}
	lib.Main("C08", []lib.Scenario{
		{Name: "sequences", Weight: 4, What: "all sequences of 4 (5) chunks of 8 kinds with 5 settings, with alerts and warnings in between", Seq: sequences},
		{Name: "sizes", Weight: 2, What: "all histories up to 12 (35) and numbers of lines up to 30 (75) of each stream", Seq: sizes},
		{Name: "big", Weight: 2, What: "default, large and negative histories with up to 250 lines", Seq: big},
		{Name: "large", Weight: 2, What: "histories of up to 70 000 lines of streams of up to 70 500 lines", Seq: large},
		{Name: "texts", What: "all lines of one and two bytes, all texts of 2 (4) pieces of an alphabet of 12, lines up to a megabyte", Seq: texts},
		{Name: "two-streams", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of lines of both streams", Body: body(1, 2, []chunk{{1, "a\n"}, {2, "b\n"}, {1, "c\nd\n"}, {2, "e"}})},
		{Name: "alerts", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of lines of both streams with alerts", Body: body(2, 1, []chunk{{1, "a\nb\n"}, {2, "b\na\n"}}, "--rule", "a")},
	})
}
