//go:build go1.21

package mc

import (
	"testing"
	"time"
)

func TestReduced(t *testing.T) {
	progs := [][][]inst{
		{{{"atomic", 0, 0}}, {{"load", 0, 0}, {"lock", 1, 0}}, {{"load", 0, 0}, {"lock", 1, 0}}},
		{{{"atomic", 0, 0}}, {{"wgwait", 0, 0}, {"lock", 1, 0}}, {{"wgwait", 0, 0}, {"lock", 1, 0}}},
		{{{"once", 0, 0}}, {{"load", 0, 0}, {"lock", 1, 0}}, {{"load", 0, 0}, {"lock", 1, 0}}},
		{{{"once", 0, 0}}, {{"wgwait", 0, 0}, {"lock", 1, 0}}, {{"wgwait", 0, 0}, {"lock", 1, 0}}},
		{{{"once", 0, 0}, {"load", 0, 0}}, {{"wgwait", 0, 0}, {"lock", 1, 0}}, {{"wgwait", 0, 0}, {"lock", 1, 0}}},
		{{{"once", 0, 0}}, {{"wgwait", 0, 0}, {"lock", 1, 0}}, {{"wgwait", 0, 0}, {"lock", 1, 0}, {"rlock", 0, 1}}},
		{{{"once", 0, 1}, {"after", 0, 1}}, {{"wgwait", 0, 0}, {"lock", 1, 0}}, {{"wgwait", 0, 0}, {"lock", 1, 0}, {"rlock", 0, 1}}},
	}
	for i, p := range progs {
		body := runProg(p, [2]int{2, 0})
		cfg := Config{Bound: -1, AllowFatal: true, MaxSteps: 500}
		a := Explore(cfg, time.Now().Add(20*time.Second), body)
		noSleep = true
		c := Explore(cfg, time.Now().Add(20*time.Second), body)
		noSleep = false
		cfg.Naive = true
		b := Explore(cfg, time.Now().Add(20*time.Second), body)
		t.Log(i, "dpor", len(a.Outcomes), a.Executions, a.Cut, "nosleep", len(c.Outcomes), c.Executions, "naive", len(b.Outcomes), b.Executions)
		if len(a.Outcomes) != len(b.Outcomes) {
			for k := range b.Outcomes {
				if a.Outcomes[k] == 0 {
					t.Error("missing", k)
				}
			}
		}
	}
}
