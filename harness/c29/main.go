//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/monny/proc"
	"github.com/BTBurke/monny/vh/lib"
)

func last(l []string, n int) []string {
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return l
}

func show(l []string) string { return fmt.Sprintf("%q", append([]string{}, l...)) }

var names = []string{"add", "copy", "clear", "add twice", "scribble on the last copy"}

// histories: all sequences of operations for all small capacities.
func histories(c *lib.Cases) {
	depth, caps := 6, 4
	if !c.Quick {
		depth, caps = 8, 6
	}
	for cp := 0; cp <= caps; cp++ {
		c.Seqs(fmt.Sprintf("cap%d ", cp), len(names), depth, func(seq []int) func() {
			return func() {
				q := proc.NewQueue(cp)
				var all []string
				n := 0
				var lastCopy []string
				type snap struct{ got, want []string }
				var snaps []snap
				for i, op := range seq {
					switch op {
					case 0, 3:
						for k := 0; k <= op/3; k++ {
							n++
							s := fmt.Sprint("l", n)
							q.Add(s)
							all = append(all, s)
						}
					case 1:
						lastCopy = q.Copy()
						want := append([]string{}, last(all, cp)...)
						snaps = append(snaps, snap{lastCopy, want})
						_ = append(lastCopy, "spoiled by an append")
					case 2:
						q.Clear()
						all = nil
					case 4:
						for k := range lastCopy {
							lastCopy[k] = "scribble"
						}
						if len(snaps) > 0 {
							snaps = snaps[:len(snaps)-1]
						}
						lastCopy = nil
					}
					if got := q.Copy(); show(got) != show(last(all, cp)) {
						mc.Fail("queue", "capacity %d after %s of %v: %s, want %s", cp, names[op], seq[:i+1], show(got), show(last(all, cp)))
					}
					c.State("%d %d", cp, len(last(all, cp)))
				}
				for _, s := range snaps {
					if show(s.got) != show(s.want) {
						mc.Fail("copy", "capacity %d, %v: a copy was %s and is now %s", cp, seq, show(s.want), show(s.got))
					}
				}
				c.Step(len(seq))
			}
		})
	}
}

// long: many lines through queues of every capacity up to a large one.
func long(c *lib.Cases) {
	for cp := 0; cp <= 40; cp++ {
		c.Add(fmt.Sprint("cap", cp), func() {
			q := proc.NewQueue(cp)
			var all []string
			for i := 0; i < 3*cp+70; i++ {
				s := strings.Repeat("x", i%5) + fmt.Sprint(i)
				q.Add(s)
				all = append(all, s)
				if got := q.Copy(); show(got) != show(last(all, cp)) {
					mc.Fail("queue", "capacity %d after %d lines: %s, want %s", cp, i+1, show(got), show(last(all, cp)))
				}
				c.Step(1)
			}
			c.State("%d", cp)
		})
	}
}

// large: queues of many lines, and runs much longer than the queue.
func large(c *lib.Cases) {
	runs := [][3]int{{100, 1500, 7}, {255, 900, 1}, {256, 900, 1}, {257, 900, 1}, {1000, 4500, 97}, {1024, 3100, 33}, {1025, 3100, 33}, {3, 70000, 501}, {5000, 12000, 499}, {65536, 66000, 7001}}
	if !c.Quick {
		runs = append(runs, [3]int{1, 300000, 777}, [3]int{70000, 150000, 9001}, [3]int{1000, 300000, 3001})
	}
	for _, r := range runs {
		for clear := 0; clear < 2; clear++ {
			c.Add(fmt.Sprint(r, clear), func() {
				cp, n, every := r[0], r[1], r[2]
				q := proc.NewQueue(cp)
				var all, early, earlyWant []string
				check := func(when string) {
					got, want := q.Copy(), last(all, cp)
					if len(got) != len(want) {
						mc.Fail("queue", "capacity %d %s: %d lines, want %d", cp, when, len(got), len(want))
					}
					for i := range got {
						if got[i] != want[i] {
							mc.Fail("queue", "capacity %d %s: line %d of %d is %q, want %q", cp, when, i+1, len(got), got[i], want[i])
						}
					}
					if len(early) < 2*cp/3+1 {
						early, earlyWant = got, append([]string{}, got...)
					}
				}
				for i := 0; i < n; i++ {
					s := fmt.Sprint(i)
					q.Add(s)
					all = append(all, s)
					if i%every == 0 || i > n-3 {
						check(fmt.Sprintf("after %d lines", i+1))
					}
					if clear == 1 && i == n/2 {
						q.Clear()
						all = nil
						check("after it was cleared")
					}
					c.Step(1)
				}
				for i := range early {
					if early[i] != earlyWant[i] {
						mc.Fail("copy", "capacity %d: line %d of a copy was %q and is now %q", cp, i+1, earlyWant[i], early[i])
					}
				}
				c.State("%v", r)
			})
		}
	}
}

type state string

// concurrent: all programs of goroutines with a few operations each.
func concurrent(threads, each int, caps []int) func() {
	return func() {
		cp := caps[mc.Choose(len(caps), "capacity")]
		q := proc.NewQueue(cp)
		var h lib.LinHist
		h.RealTime = threads*each <= 4
		line := func(s state) []string {
			if s == "" {
				return nil
			}
			return strings.Split(string(s), ",")
		}
		do := func(th, op, k int) {
			switch op {
			case 0:
				l := fmt.Sprintf("g%d.%d", th, k)
				h.Do(th, "Add "+l, func(x interface{}) (interface{}, string) {
					return state(strings.Join(last(append(append([]string{}, line(x.(state))...), l), cp), ",")), ""
				}, func() string { q.Add(l); return "" })
			case 1:
				h.Do(th, "Copy", func(x interface{}) (interface{}, string) {
					return x, string(x.(state))
				}, func() string { return strings.Join(q.Copy(), ",") })
			case 2:
				h.Do(th, "Clear", func(x interface{}) (interface{}, string) {
					return state(""), ""
				}, func() string { q.Clear(); return "" })
			}
		}
		var j lib.Join
		prev := 0
		var progs []string
		for t := 0; t < threads; t++ {
			n := 1
			for i := 0; i < each; i++ {
				n *= 3
			}
			code := prev + mc.Choose(n-prev, "program")
			prev = code
			progs = append(progs, fmt.Sprint(code))
			j.Go(fmt.Sprint("g", t), func() {
				for i := 0; i < each; i++ {
					do(t, code%3, i)
					code /= 3
				}
			})
		}
		j.Wait()
		do(9, 1, 0)
		if !h.Linearizable(state("")) {
			mc.Fail("linearizability", "capacity %d: no sequential order explains %s", cp, h.String())
		}
		mc.Outcome(fmt.Sprint(cp, progs, h.Outcome()))
	}
}

func main() {
	cfg := mc.Config{Race: true}
	lib.Main("C29", []lib.Scenario{
		{Name: "histories", Weight: 3, What: "all sequences of 6 (8) operations on queues of capacity 0 to 4 (6)", Seq: histories},
		{Name: "long", What: "long runs of lines on queues of capacity 0 to 40", Seq: long},
		{Name: "large", What: "queues of capacity up to 65536 and up to 70 000 (300 000) lines, cleared halfway or not", Seq: large},
		{Name: "two", Weight: 2, What: "two goroutines with all programs of two operations, capacities 0 to 2, all schedules", Cfg: cfg, Body: concurrent(2, 2, []int{0, 1, 2})},
		{Name: "three", Weight: 2, What: "three goroutines with one operation each, all schedules", Cfg: cfg, Body: concurrent(3, 1, []int{0, 1, 2})},
		{Name: "three-by-two", Weight: 3, Thorough: true, What: "three goroutines with two operations each", Cfg: cfg, Body: concurrent(3, 2, []int{1, 2})},
		{Name: "two-by-three", Weight: 3, Thorough: true, What: "two goroutines with three operations each", Cfg: cfg, Body: concurrent(2, 3, []int{1, 2})},
	})
}
