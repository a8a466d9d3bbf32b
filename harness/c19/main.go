//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/vh/lib"
)

var names = []fsm.State{"a", "b", "c", "d"}

const reset = 4

// model is the specification.
type model struct {
	initial, cur fsm.State
	edges        map[[2]fsm.State]bool
	stoppable    bool
	stopped      bool
	id           uint64
}

func (m *model) apply(op int) (ok bool) {
	if op == reset {
		m.cur, m.stopped = m.initial, false
		return true
	}
	to := names[op]
	if m.stoppable && m.stopped || !m.edges[[2]fsm.State{m.cur, to}] {
		m.stopped = true
		return false
	}
	m.cur = to
	return true
}

// drive applies seq to a machine and compares every step.
func drive(c *lib.Cases, mach *fsm.Machine, m *model, seq []int) {
	check := func(when string) {
		if mach.State() != m.cur {
			mc.Fail("state", "%s: state is %q, want %q", when, mach.State(), m.cur)
		}
		for _, f := range names {
			for _, t := range names {
				if mach.Allowable(f, t) != m.edges[[2]fsm.State{f, t}] {
					mc.Fail("allowable", "%s: Allowable(%s,%s)=%v", when, f, t, mach.Allowable(f, t))
				}
			}
		}
	}
	check("new")
	for i, op := range seq {
		when := fmt.Sprintf("after operation %d of %v (stoppable %v)", i, seq, m.stoppable)
		ok := m.apply(op)
		if op == reset {
			mach.Reset()
		} else if err := mach.Transition(names[op]); (err == nil) != ok {
			mc.Fail("result", "%s: transition to %s: error %v, allowed %v", when, names[op], err, ok)
		}
		check(when)
		c.StateID(m.id | uint64(m.cur[0])<<1 | uint64(lib.Bit(m.stopped)))
	}
}

// options builds the same graph in different ways.
func options(set int, n int, stop bool, style int) []fsm.MachineOption {
	var o []fsm.MachineOption
	if stop && style%2 == 0 {
		o = append(o, fsm.WithStoppable())
	}
	var groups [][]fsm.Transition
	for f := 0; f < n; f++ {
		var tos []fsm.State
		for t := 0; t < n; t++ {
			if set>>(uint(f*n+t))&1 == 0 {
				continue
			}
			tos = append(tos, names[t])
			if style == 0 {
				o = append(o, fsm.WithTransition(fsm.Transition{From: names[f], To: names[t]}))
			}
		}
		switch style {
		case 1:
			groups = append(groups, fsm.T(names[f], tos...))
		case 2: // single edges and groups mixed, one call per source
			if len(tos) > 0 {
				o = append(o, fsm.WithTransitions(fsm.T(names[f], tos[1:]...)), fsm.WithTransition(fsm.Transition{From: names[f], To: tos[0]}))
			}
		case 3: // duplicates
			groups = append(groups, fsm.T(names[f], tos...), fsm.T(names[f], tos...))
		}
	}
	if groups != nil {
		o = append(o, fsm.WithTransitions(groups...))
	}
	if stop && style%2 == 1 {
		o = append(o, fsm.WithStoppable())
	}
	return o
}

func edges(set, n int) map[[2]fsm.State]bool {
	e := map[[2]fsm.State]bool{}
	for f := 0; f < n; f++ {
		for t := 0; t < n; t++ {
			if set>>(uint(f*n+t))&1 == 1 {
				e[[2]fsm.State{names[f], names[t]}] = true
			}
		}
	}
	return e
}

func enum(c *lib.Cases, n int, sets []int, depth int, styles []int, nops int) {
	for _, set := range sets {
		for _, stop := range []bool{false, true} {
			for _, style := range styles {
				for init := 0; init < n; init++ {
					if init > 0 && style != 1 {
						continue
					}
					set, stop, style, init := set, stop, style, init
					c.Seqs(fmt.Sprintf("g%x,%v,s%d,i%d:", set, stop, style, init), nops, depth, func(seq []int) func() {
						for i, x := range seq { // the last operation code is always reset
							if x == nops-1 {
								seq[i] = reset
							}
						}
						return func() {
							o := options(set, n, stop, style)
							mk := func() (*fsm.Machine, *model) {
								m, err := fsm.NewMachine(names[init], o...)
								if err != nil {
									mc.Fail("construction", "NewMachine: %v", err)
								}
								return m, &model{initial: names[init], cur: names[init], edges: edges(set, n), stoppable: stop, id: uint64(set)<<20 | uint64(n)<<17 | uint64(lib.Bit(stop))<<16}
							}
							m1, s1 := mk()
							m2, s2 := mk() // same options, other machine
							drive(c, m1, s1, seq)
							drive(c, m2, s2, seq)
						}
					})
				}
			}
		}
		if c.Stopped() {
			return
		}
	}
}

// large: chains, rings, complete graphs and stars of up to many states.  For every state all transitions are attempted.
func large(c *lib.Cases) {
	kinds := map[string]func(n int, f, t int) bool{
		"chain":    func(n, f, t int) bool { return t == f+1 },
		"ring":     func(n, f, t int) bool { return t == (f+1)%n },
		"complete": func(n, f, t int) bool { return true },
		"star":     func(n, f, t int) bool { return (f == 0) != (t == 0) },
		"skip":     func(n, f, t int) bool { return t > f && (t-f)%7 == 0 || t == 0 },
	}
	text := []func(i int) fsm.State{
		func(i int) fsm.State { return fsm.State(fmt.Sprint("state", i)) },
		func(i int) fsm.State { return fsm.State(strings.Repeat("s", i)) }, // the first one is empty
		func(i int) fsm.State { return fsm.State(string(rune(0x4e00 + i))) },
		func(i int) fsm.State { return fsm.State(fmt.Sprintf("%c/%d", "aA"[i%2], i/2)) },
		func(i int) fsm.State { return fsm.State(fmt.Sprintf("%s%d", strings.Repeat(" ", i%3), i/3)) },
	}
	sizes := []int{1, 2, 5, 9, 17, 40, 130}
	if !c.Quick {
		sizes = append(sizes, 300)
	}
	for kind, edge := range kinds {
		for _, n := range sizes {
			for ti, name := range text {
				for style := 0; style < 3; style++ {
					for _, stop := range []bool{false, true} {
						if c.Quick && n > 40 && (style > 0 || ti > 1) {
							continue
						}
						c.Add(fmt.Sprint(kind, n, ti, style, stop), func() {
							var o []fsm.MachineOption
							var all [][]fsm.Transition
							for f := 0; f < n; f++ {
								var tos []fsm.State
								for t := 0; t < n; t++ {
									if edge(n, f, t) {
										tos = append(tos, name(t))
									}
								}
								switch style {
								case 0:
									all = append(all, fsm.T(name(f), tos...))
								case 1:
									o = append(o, fsm.WithTransitions(fsm.T(name(f), tos...)))
								case 2:
									for _, t := range tos {
										o = append(o, fsm.WithTransition(fsm.Transition{From: name(f), To: t}))
									}
								}
							}
							if style == 0 {
								o = append(o, fsm.WithTransitions(all...))
							}
							if stop {
								o = append(o, fsm.WithStoppable())
							}
							m, err := fsm.NewMachine(name(0), o...)
							if err != nil {
								mc.Fail("construction", "%v", err)
							}
							desc := fmt.Sprintf("%s of %d states, names %d, style %d, stoppable %v", kind, n, ti, style, stop)
							at := 0
							for step := 0; step < 2*n && step < 300; step++ {
								for t := 0; t < n; t++ {
									if m.Allowable(name(at), name(t)) != edge(n, at, t) {
										mc.Fail("allowable", "%s: Allowable(%q,%q)=%v", desc, name(at), name(t), !edge(n, at, t))
									}
									c.Step(1)
								}
								if !stop {
									// all that is not allowed changes nothing
									for t := 0; t < n; t++ {
										if !edge(n, at, t) {
											if m.Transition(name(t)) == nil {
												mc.Fail("result", "%s: %q to %q was allowed", desc, name(at), name(t))
											}
										}
									}
									if m.Transition("undeclared") == nil || m.Transition(name(at)+" ") == nil && !(ti == 1 || ti == 4) {
										mc.Fail("result", "%s: a state that does not exist was entered from %q", desc, name(at))
									}
								}
								if m.State() != name(at) {
									mc.Fail("state", "%s: state is %q, want %q", desc, m.State(), name(at))
								}
								// on along the graph, by the target that comes next after the step number
								next := -1
								for k := 0; k < n; k++ {
									t := (step*5 + 1 + k) % n
									if edge(n, at, t) {
										next = t
										break
									}
								}
								if next < 0 {
									break
								}
								if err := m.Transition(name(next)); err != nil {
									mc.Fail("result", "%s: %q to %q: %v", desc, name(at), name(next), err)
								}
								at = next
								if m.State() != name(at) {
									mc.Fail("state", "%s: state is %q, want %q", desc, m.State(), name(at))
								}
								c.State("%s %d %d", kind, n, at)
							}
							m.Reset()
							if m.State() != name(0) {
								mc.Fail("state", "%s: state after a reset is %q, want %q", desc, m.State(), name(0))
							}
						})
					}
				}
			}
		}
	}
}

func seqTo(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func main() {
	lib.Main("C19", []lib.Scenario{
		{Name: "graphs2", What: "all 16 graphs over 2 states, stoppable or not, 4 ways of building them, all operation sequences of length 6 over transitions to {a,b,undeclared c} and reset", Weight: 2,
			Seq: func(c *lib.Cases) { enum(c, 2, seqTo(16), 5+lib.Bit(!c.Quick), []int{0, 1, 2, 3}, 4) }},
		{Name: "graphs3", What: "all 512 graphs over 3 states, stoppable or not, all operation sequences of length 3 (thorough: 4) over transitions to 4 states and reset", Weight: 2,
			Seq: func(c *lib.Cases) {
				if c.Quick {
					enum(c, 3, seqTo(512), 3, []int{1, 2}, 5)
				} else {
					enum(c, 3, seqTo(512), 4, []int{1, 2}, 5)
				}
			}},
		{Name: "large", What: "chains, rings, stars, complete and other graphs of up to 130 (300) states with 5 kinds of names (empty, long, non-ASCII, differing in case or spaces), built in 3 ways: every transition attempted from every state on a walk", Seq: large},
		{Name: "deep", What: "selected graphs (cycle, tree, complete, self loops), all operation sequences of length 7 (thorough: 8)", Weight: 2,
			Seq: func(c *lib.Cases) {
				d := 6
				if !c.Quick {
					d = 8
				}
				enum(c, 3, []int{0x062, 0x0e2, 0x111, 0x1ff, 0x022}, d, []int{1}, 5)
			}},
	})
}
