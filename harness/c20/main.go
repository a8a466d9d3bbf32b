//go:build go1.22

package main

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/vh/lib"
)

// source stands in for the secure random source: unique, recorded bytes.
type source struct {
	n         uint32
	next, out []byte
}

func (s *source) Read(p []byte) (int, error) {
	for i := range p {
		if s.n%8 == 0 {
			s.next = binary.BigEndian.AppendUint64(nil, uint64(s.n/8+1)*0x9E3779B97F4A7C15)
		}
		p[i] = s.next[s.n%8]
		s.n++
	}
	s.out = append(s.out, p...)
	return len(p), nil
}

var src *source

func fresh() {
	src = &source{}
	rand.Reader = src
	env.RandSource = src
}

const (
	opReset = iota
	opGood  // allowed target, current nonce
	opBadTo // refused target, current nonce
	opWrong // allowed target, never issued nonce
	opNil   // allowed target, no nonce
	opOld   // allowed target, previous nonce
	opFirst // allowed target, first nonce
	opOther // allowed target, nonce of another machine
	opSelf  // target = current state (refused), current nonce
	nOps
)

type track struct {
	issued [][]byte
	start  int
}

func (t *track) check(m *fsm.MachineNonce, when string) []byte {
	n := append([]byte(nil), m.Nonce()...)
	if len(n) != 16 {
		mc.Fail("nonce", "%s: nonce has %d bytes", when, len(n))
	}
	i := bytes.Index(src.out, n)
	if i < 0 {
		mc.Fail("nonce", "%s: nonce %x does not come from the secure random source", when, n)
	}
	return n
}

func (t *track) fresh(m *fsm.MachineNonce, when string) {
	n := t.check(m, when)
	for _, o := range t.issued {
		if bytes.Equal(o, n) {
			mc.Fail("nonce", "%s: nonce %x was used before", when, n)
		}
	}
	t.issued = append(t.issued, n)
}

var ring = []fsm.State{"a", "b", "c"}

func opts(stop bool) []fsm.MachineOption {
	o := []fsm.MachineOption{fsm.WithTransitions(fsm.T("a", "b"), fsm.T("b", "c"), fsm.T("c", "a"))}
	if stop {
		o = append(o, fsm.WithStoppable())
	}
	return o
}

func run(c *lib.Cases, stop bool, seq []int, forge func(n []byte) []byte) {
	fresh()
	other, err := fsm.NewMachineNonce("a", opts(stop)...)
	if err != nil {
		mc.Fail("construction", "%v", err)
	}
	m, err := fsm.NewMachineNonce("a", opts(stop)...)
	if err != nil {
		mc.Fail("construction", "%v", err)
	}
	t := &track{issued: [][]byte{append([]byte(nil), other.Nonce()...)}}
	cur, stopped := 0, false
	for i := 0; i <= len(seq); i++ {
		when := fmt.Sprintf("operation %d of %v (stoppable %v)", i, seq, stop)
		if i == 0 {
			t.fresh(m, "new")
			continue
		}
		op := seq[i-1]
		now := t.issued[len(t.issued)-1]
		next := ring[(cur+1)%3]
		want := false
		switch op {
		case opReset:
			if err := m.Reset(); err != nil {
				mc.Fail("result", "%s: reset: %v", when, err)
			}
			cur, stopped = 0, false
			t.fresh(m, when)
			if m.State() != "a" {
				mc.Fail("state", "%s: state %s after reset", when, m.State())
			}
			continue
		case opGood:
			want = !(stop && stopped)
			err = m.Transition(next, append([]byte(nil), now...))
		case opBadTo:
			err = m.Transition(ring[(cur+2)%3], append([]byte(nil), now...))
		case opSelf:
			err = m.Transition(ring[cur], append([]byte(nil), now...))
		case opWrong:
			err = m.Transition(next, forge(now))
		case opNil:
			err = m.Transition(next, nil)
		case opOld:
			old := t.issued[0]
			if len(t.issued) > 1 {
				old = t.issued[len(t.issued)-2]
			}
			err = m.Transition(next, append([]byte(nil), old...))
		case opFirst:
			f := t.issued[0]
			if len(t.issued) > 2 {
				f = t.issued[1]
			}
			err = m.Transition(next, append([]byte(nil), f...))
		case opOther:
			err = m.Transition(next, append([]byte(nil), other.Nonce()...))
		}
		if (err == nil) != want {
			mc.Fail("result", "%s: code %d: error %v, expected success %v", when, op, err, want)
		}
		if want {
			cur = (cur + 1) % 3
		} else {
			stopped = true
		}
		if m.State() != ring[cur] {
			mc.Fail("state", "%s: state %s, want %s", when, m.State(), ring[cur])
		}
		t.fresh(m, when)
		c.State("%v %d %v %d", stop, cur, stopped, op)
	}
	if other.State() != "a" {
		mc.Fail("state", "another machine moved")
	}
	// every nonce that was ever issued, presented now, is refused
	// (each attempt renews the nonce, so all but the last issued are old)
	for _, old := range append([][]byte(nil), t.issued...) {
		if bytes.Equal(old, m.Nonce()) {
			continue
		}
		before := m.State()
		if m.Transition(ring[(cur+1)%3], old) == nil {
			mc.Fail("replay", "an old nonce was accepted after %v", seq)
		}
		if m.State() != before {
			mc.Fail("state", "a refused attempt changed the state after %v", seq)
		}
		t.fresh(m, "replayed")
	}
}

// long: many attempts and resets; nonces of long ago are presented throughout and all of them at the end.
func long(c *lib.Cases) {
	for _, n := range []int{60, 300, 1100, 5000} {
		if n == 5000 && c.Quick {
			n = 2500
		}
		for pattern := 0; pattern < 4; pattern++ {
			c.Add(fmt.Sprint(n, pattern), func() {
				fresh()
				m, err := fsm.NewMachineNonce("a", opts(false)...)
				if err != nil {
					mc.Fail("construction", "%v", err)
				}
				issued := [][]byte{append([]byte(nil), m.Nonce()...)}
				seen := map[string]bool{string(issued[0]): true}
				cur := 0
				took := func(when string) {
					x := append([]byte(nil), m.Nonce()...)
					if len(x) != 16 || seen[string(x)] {
						mc.Fail("nonce", "%s: nonce %x is short or was used before", when, x)
					}
					seen[string(x)] = true
					issued = append(issued, x)
					if m.State() != ring[cur] {
						mc.Fail("state", "%s: state %s, want %s", when, m.State(), ring[cur])
					}
				}
				try := func(i int, nonce []byte, want bool, what string) {
					when := fmt.Sprintf("pattern %d, step %d, %s", pattern, i, what)
					next := (cur + 1) % 3
					err := m.Transition(ring[next], append([]byte(nil), nonce...))
					if (err == nil) != want {
						mc.Fail("replay", "%s: %v", when, err)
					}
					if want {
						cur = next
					}
					took(when)
				}
				for i := 0; i < n; i++ {
					switch {
					case pattern == 1 && i%3 == 2, pattern == 2 && i%100 == 99, pattern == 3 && i%2 == 1:
						if err := m.Reset(); err != nil {
							mc.Fail("result", "reset: %v", err)
						}
						cur = 0
						took("reset")
					default:
						try(i, issued[len(issued)-1], true, "the current nonce")
					}
					if i%7 == 6 {
						try(i, issued[(i*31)%(len(issued)-1)], false, "a nonce of before")
					}
					c.Step(1)
				}
				for i, old := range append([][]byte(nil), issued[:len(issued)-1]...) {
					try(n+i, old, false, fmt.Sprintf("nonce %d of %d", i, len(issued)))
				}
				c.State("%d %d", n, pattern)
			})
		}
	}
}

func main() {
	flip := func(n []byte) []byte { x := append([]byte(nil), n...); x[15] ^= 1; return x }
	lib.Main("C20", []lib.Scenario{
		{Name: "sequences", What: "all sequences of 4 (thorough: 6) operations: reset, attempts with current, forged, missing, previous, first or another machine's nonce, allowed or refused target; stoppable or not; afterwards every nonce ever issued is presented again",
			Seq: func(c *lib.Cases) {
				d := 4
				if !c.Quick {
					d = 6
				}
				for _, stop := range []bool{false, true} {
					stop := stop
					c.Seqs(fmt.Sprintf("%v:", stop), nOps, d, func(s []int) func() { return func() { run(c, stop, s, flip) } })
				}
			}},
		{Name: "forgeries", What: "for every one of the 128 bits flipped, every truncation and extension of the current nonce, after every prefix of 2 operations",
			Seq: func(c *lib.Cases) {
				var fs []func(n []byte) []byte
				for b := 0; b < 128; b++ {
					b := b
					fs = append(fs, func(n []byte) []byte { x := append([]byte(nil), n...); x[b/8] ^= 1 << uint(b%8); return x })
				}
				for l := 0; l < 16; l++ {
					l := l
					fs = append(fs, func(n []byte) []byte { return append([]byte(nil), n[:l]...) })
				}
				fs = append(fs, func(n []byte) []byte { return append(append([]byte(nil), n...), 0) },
					func(n []byte) []byte { return append(append([]byte(nil), n...), n...) },
					func(n []byte) []byte { return make([]byte, 16) },
					func(n []byte) []byte { return append([]byte{0}, n...) })
				for i, f := range fs {
					f := f
					c.Seqs(fmt.Sprintf("f%d:", i), 3, 2, func(s []int) func() {
						s = append(append([]int(nil), s...), opWrong, opGood)
						return func() { run(c, false, s, f) }
					})
				}
			}},
		{Name: "long", What: "up to 2500 (5000) attempts in a row, with and without resets in between, and nonces of before among them; then every nonce ever issued again", Seq: long},
		{Name: "concurrent", What: "three goroutines present the same nonce: all schedules; at most one succeeds",
			Cfg: mc.Config{MapOrders: 1},
			Body: func() {
				fresh()
				m, err := fsm.NewMachineNonce("a", fsm.WithTransitions(fsm.T("a", "b"), fsm.T("b", "a")))
				if err != nil {
					mc.Fail("construction", "%v", err)
				}
				n := append([]byte(nil), m.Nonce()...)
				var j lib.Join
				ok := 0
				for i := 0; i < 3; i++ {
					j.Go("attempt", func() {
						mc.Sleep(time.Millisecond)
						to := fsm.State("b")
						if m.State() == "b" {
							to = "a"
						}
						if m.Transition(to, n) == nil {
							ok++
						}
					})
				}
				j.Wait()
				if ok > 1 {
					mc.Fail("reuse", "%d concurrent attempts with the same nonce succeeded", ok)
				}
				mc.Outcome(fmt.Sprint(ok))
			}},
	})
}
