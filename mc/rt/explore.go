//go:build go1.21

package mc

import (
	"fmt"
	"time"
)

// Result of an exploration.
type Result struct {
	Executions  int64
	Cut         int64 // executions abandoned as redundant (sleep sets)
	States      int64 // scheduling and choice points visited (nodes of the execution tree)
	Transitions int64
	Outcomes    map[string]int64
	Exhaustive  bool
	Bound       int // completed deviation bound, -1 if not bounded
	Violation   *Violation
	Decisions   []int
	Sample      []string
	MaxDepth    int
	MaxThreads  int
	Error       string
	Known       map[string]int64 // violations listed as known findings
	KnownMsg    map[string]string
	Wall        time.Duration
}

func newSched(cfg Config) *sched {
	x := &sched{cfg: cfg, globals: map[string]interface{}{}, marks: map[string]int{}, ptrIDs: map[interface{}]int{}}
	if cfg.Race {
		x.shadow = map[uintptr]*shadow{}
	}
	return x
}

// Outcome records what was observed in this execution.
func Outcome(o string) { s.outcome = o }

// OutcomeFunc is Outcome, evaluated when the execution has ended.
func OutcomeFunc(f func() string) { s.outcomeFn = f }

// Explore enumerates the executions of body.
func Explore(cfg Config, deadline time.Time, body func()) *Result {
	cfg.defaults()
	start := time.Now()
	res := &Result{Outcomes: map[string]int64{}, Bound: -1}
	if cfg.Bound >= 0 {
		res.Bound = cfg.Bound
	}
	var stack []*node
	replay := 0
	full := !cfg.Naive && cfg.Bound < 0
	for {
		x := newSched(cfg)
		x.stack = stack
		x.replay = replay
		runOnce(x, body)
		stack = x.stack
		res.Transitions += int64(len(x.trans))
		res.States += int64(len(stack) - replay)
		if len(stack) > res.MaxDepth {
			res.MaxDepth = len(stack)
		}
		if len(x.threads) > res.MaxThreads {
			res.MaxThreads = len(x.threads)
		}
		if x.diverged != "" {
			res.Error = x.diverged
			break
		}
		if x.depth < replay {
			res.Error = fmt.Sprintf("replay diverged: execution ended at depth %d of %d", x.depth, replay)
			if x.viol != nil {
				res.Error += " (" + x.viol.Error() + ")"
			}
			break
		}
		if x.cut {
			res.Cut++
		} else {
			res.Executions++
			o := x.outcome
			if x.outcomeFn != nil {
				o = x.outcomeFn()
			}
			if x.viol != nil {
				o = "VIOLATION " + x.viol.Kind + " " + o
			}
			if len(res.Outcomes) < 100000 || res.Outcomes[o] > 0 {
				res.Outcomes[o]++
			}
			if res.Sample == nil && x.viol == nil {
				// the first complete execution, re-run with a trace
				res.Sample = traceOf(cfg, x.decs, body)
			}
		}
		if x.viol != nil && cfg.Known != nil {
			if k := cfg.Known(x.viol); k != "" {
				if res.Known == nil {
					res.Known, res.KnownMsg = map[string]int64{}, map[string]string{}
				}
				res.Known[k]++
				res.KnownMsg[k] = x.viol.Msg
				x.viol = nil
			}
		}
		if x.viol != nil && !cfg.AllowFatal {
			res.Violation = x.viol
			res.Decisions = x.decs
			break
		}
		// backtrack
		replay = 0
		for len(stack) > 0 {
			n := stack[len(stack)-1]
			if n.choice {
				if n.cur+1 < n.n {
					n.cur++
					replay = len(stack)
					break
				}
				stack = stack[:len(stack)-1]
				continue
			}
			n.done[n.chosen] = true
			next := -1
			switch {
			case full:
				for _, q := range n.enabled {
					if n.back[q] && !n.done[q] && !inSleep(n.sleep, q) {
						next = q
						break
					}
				}
			default:
				if cfg.Naive || n.dev < cfg.Bound {
					for _, q := range n.enabled {
						if !n.done[q] {
							next = q
							break
						}
					}
				}
			}
			if next >= 0 {
				n.chosen = next
				replay = len(stack)
				break
			}
			stack = stack[:len(stack)-1]
		}
		if replay == 0 {
			res.Exhaustive = full || cfg.Naive
			if !full && !cfg.Naive {
				res.Bound = cfg.Bound
			}
			break
		}
		if time.Now().After(deadline) {
			if cfg.Bound >= 0 {
				res.Bound = cfg.Bound - 1
			}
			break
		}
	}
	res.Wall = time.Since(start)
	return res
}

func traceOf(cfg Config, decs []int, body func()) []string {
	v, tr, _ := ReplayRun(cfg, decs, body)
	_ = v
	if len(tr) > 60 {
		tr = append(append([]string(nil), tr[:50]...), fmt.Sprintf("... %d more", len(tr)-50))
	}
	return tr
}

// ReplayRun runs one execution with recorded decisions.
func ReplayRun(cfg Config, decs []int, body func()) (*Violation, []string, string) {
	cfg.defaults()
	cfg.KeepTrace = true
	x := newSched(cfg)
	x.forced = decs
	if x.forced == nil {
		x.forced = []int{}
	}
	runOnce(x, body)
	if x.viol != nil {
		x.viol.Trace = x.traceLog
	}
	return x.viol, x.traceLog, x.diverged
}

// RunOnce runs body as a single execution with default scheduling and the given
// choices fixed to zero; for sequential enumeration.
func RunOnce(cfg Config, body func()) *Violation {
	cfg.defaults()
	x := newSched(cfg)
	noClocks = !cfg.Race
	defer func() { noClocks = false }()
	runOnce(x, body)
	beat.Add(1)
	return x.viol
}

// Live lists goroutines other than the caller that have not ended.
func Live() []string {
	var out []string
	for _, t := range s.threads {
		if t.done || t.timer != nil || t == s.cur {
			continue
		}
		n := t.label()
		if t.op != nil {
			n += ": " + t.op.name
		}
		out = append(out, n)
	}
	return out
}

// Freeze ends everything but the caller, as the end of a process does.  It is
// meant for executions that run several cases one after another.
func Freeze() {
	if s == nil {
		return
	}
	for _, t := range s.threads {
		if t == s.cur || t.done {
			continue
		}
		if t.timer != nil {
			t.timer.active = false
		}
		t.op = nil
	}
}

// Anew starts counting operations and time towards the limits anew, for executions that run several cases one after
// another. It returns how many operations there were since the last time.
func Anew() int {
	n := s.steps - s.base
	s.base, s.baseTime = s.steps, s.now
	return n
}

// NumThreads counts the threads and timers created in this execution.
func NumThreads() int { return len(s.threads) }

// ActiveTimers counts armed timers.
func ActiveTimers() int {
	n := 0
	for _, t := range s.timers {
		if t.active {
			n++
		}
	}
	return n
}

// Settle lets everything else run until nothing but the passing of time can happen.
func Settle() { Sleep(1) }

// Active reports whether the caller runs under the checker.
func Active() bool { return active() }
