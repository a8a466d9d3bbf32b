//go:build go1.22

package lib

import (
	"fmt"
	"strings"

	"github.com/BTBurke/monny/mc/rt"
)

// LinOp is a completed (or pending, Resp==0) operation of a concurrent history.
type LinOp struct {
	Thread    int
	Name      string
	Result    string
	Inv, Resp int
	// Apply performs the operation on a specification state: it returns the
	// new state and the result that the specification gives.
	Apply func(state interface{}) (interface{}, string)
}

// LinHist records a concurrent history.
type LinHist struct {
	ops []*LinOp
	n   int
	obj *mc.Obj
	// RealTime makes the order of calls and returns a dependency of the exploration.
	RealTime bool
}

// Do runs and records an operation.
func (h *LinHist) Do(thread int, name string, apply func(interface{}) (interface{}, string), f func() string) {
	if h.RealTime {
		if h.obj == nil {
			h.obj = &mc.Obj{}
		}
		h.obj.DoClass("call "+name, 1, func() {})
	}
	h.n++
	o := &LinOp{Thread: thread, Name: name, Inv: h.n, Apply: apply}
	h.ops = append(h.ops, o)
	o.Result = f()
	if h.RealTime {
		h.obj.DoClass("return "+name, 2, func() {})
	}
	h.n++
	o.Resp = h.n
}

// String describes the history.
func (h *LinHist) String() string {
	var b strings.Builder
	for _, o := range h.ops {
		fmt.Fprintf(&b, "[%d..%d g%d %s = %s] ", o.Inv, o.Resp, o.Thread, o.Name, o.Result)
	}
	return b.String()
}

// Linearizable reports whether some sequential order of the operations that
// respects their real-time order explains all results.
func (h *LinHist) Linearizable(init interface{}) bool {
	n := len(h.ops)
	seen := map[string]bool{}
	var rec func(done uint64, st interface{}) bool
	rec = func(done uint64, st interface{}) bool {
		if done == 1<<uint(n)-1 {
			return true
		}
		k := fmt.Sprintf("%x|%v", done, st)
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, o := range h.ops {
			if done>>uint(i)&1 == 1 {
				continue
			}
			first := true
			for j, p := range h.ops {
				if j != i && done>>uint(j)&1 == 0 && p.Resp != 0 && p.Resp < o.Inv {
					first = false
					break
				}
			}
			if !first {
				continue
			}
			ns, r := o.Apply(st)
			if r == o.Result && rec(done|1<<uint(i), ns) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

// Outcome summarises the results.
func (h *LinHist) Outcome() string {
	var s []string
	for _, o := range h.ops {
		s = append(s, fmt.Sprintf("g%d %s=%s", o.Thread, o.Name, o.Result))
	}
	return strings.Join(s, " ")
}
