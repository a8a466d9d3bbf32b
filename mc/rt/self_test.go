//go:build go1.21

package mc

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

type inst struct {
	k    string
	a, b int
}

// genProg makes a random program: threads of instructions.
func genProg(r *rand.Rand) [][]inst {
	kinds := []string{"lock", "send", "recv", "select", "selsend", "atomic", "load", "close", "rlock", "wlock", "wgadd", "wgwait", "nb", "once", "cond", "spawn", "choose", "sleep", "after"}
	if tryLocks {
		kinds = []string{"lock", "trylock", "rlock", "wlock", "tryrlock", "trywlock", "atomic", "load", "send", "recv"}
	}
	nt := 2 + r.Intn(2)
	var p [][]inst
	for i := 0; i < nt; i++ {
		n := 1 + r.Intn(3)
		var t []inst
		for j := 0; j < n; j++ {
			t = append(t, inst{kinds[r.Intn(len(kinds))], r.Intn(2), r.Intn(3)})
		}
		p = append(p, t)
	}
	return p
}

func runProg(p [][]inst, caps [2]int) func() {
	return func() {
		logs := make([][]string, len(p))
		ch := [2]chan int{make(chan int, caps[0]), make(chan int, caps[1])}
		var mu [2]Mutex
		var rw [2]RWMutex
		var shared, rsh [2]int
		var at [2]Int32
		var wg WaitGroup
		var once Once
		var end WaitGroup
		end.Add(len(p))
		var do func(i int, c inst, out *[]string)
		do = func(i int, c inst, out *[]string) {
			w := func(f string, a ...interface{}) { *out = append(*out, fmt.Sprintf(f, a...)) }
			defer func() {
				if s.aborting {
					return
				}
				if r := recover(); r != nil {
					w("P%v", r)
				}
			}()
			switch c.k {
			case "lock":
				mu[c.a].Lock()
				shared[c.a] = shared[c.a]*3 + i + 1
				w("s%d", shared[c.a])
				if c.b == 2 {
					mu[1-c.a].Lock()
					shared[1-c.a] = shared[1-c.a]*3 + i + 1
					mu[1-c.a].Unlock()
				}
				mu[c.a].Unlock()
			case "send":
				SendTo(ch[c.a])(i*10 + c.b)
			case "recv":
				v, ok := Recv2(ch[c.a])
				w("r%d%v", v, ok)
			case "select":
				a, b := RecvCase(ch[0]), RecvCase(ch[1])
				k := Select(false, a, b)
				w("c%d:%d,%d", k, a.V(), b.V())
			case "selsend":
				a, b := RecvCase(ch[c.a]), SendCase(ch[1-c.a])(i*10+5)
				k := Select(false, a, b)
				w("d%d:%d", k, a.V())
			case "nb":
				a := RecvCase(ch[c.a])
				k := Select(true, a)
				w("n%d:%d", k, a.V())
			case "atomic":
				w("a%d", at[c.a].Add(int32(i+1)))
			case "load":
				w("l%d", at[c.a].Load())
			case "close":
				Close(ch[c.a])
			case "rlock":
				rw[c.a].RLock()
				w("q%d", rsh[c.a])
				rw[c.a].RUnlock()
			case "wlock":
				rw[c.a].Lock()
				rsh[c.a] = rsh[c.a]*3 + i + 1
				rw[c.a].Unlock()
			case "trylock":
				if mu[c.a].TryLock() {
					shared[c.a] = shared[c.a]*3 + i + 1
					w("y%d", shared[c.a])
					mu[c.a].Unlock()
				} else {
					w("y-")
				}
			case "tryrlock":
				if rw[c.a].TryRLock() {
					w("z%d", rsh[c.a])
					rw[c.a].RUnlock()
				} else {
					w("z-")
				}
			case "trywlock":
				if rw[c.a].TryLock() {
					rsh[c.a] = rsh[c.a]*3 + i + 1
					rw[c.a].Unlock()
				} else {
					w("Z-")
				}
			case "wgadd":
				wg.Add(1)
				if c.a == 0 {
					at[0].Add(1)
				}
				wg.Done()
			case "wgwait":
				wg.Wait()
				w("w%d", at[0].Load())
			case "once":
				once.Do(func() { at[c.a].Add(7) })
				w("o%d", at[c.a].Load())
			case "spawn":
				end.Add(1)
				var sub []string
				Go(func() {
					defer end.Done()
					at[c.a].Add(int32(c.b + 3))
					sub = append(sub, "x")
				})
			case "choose":
				w("h%d", Choose(2, "t"))
			case "sleep":
				Sleep(time.Duration(c.b+1) * time.Second)
				w("t%v", Elapsed())
			case "after":
				a, b := RecvCase(After(time.Duration(c.b+1)*time.Second)), RecvCase(ch[c.a])
				k := Select(false, a, b)
				w("f%d@%v", k, Elapsed())
			}
		}
		for i := range p {
			i := i
			Go(func() {
				defer end.Done()
				for _, c := range p[i] {
					do(i, c, &logs[i])
				}
			})
		}
		OutcomeFunc(func() string { return flat(logs) + fmt.Sprint(shared, rsh, at[0].v, at[1].v) })
		end.Wait()
	}
}

func flat(l [][]string) string {
	var o []string
	for _, x := range l {
		o = append(o, strings.Join(x, ","))
	}
	return strings.Join(o, "|")
}

func keys(m map[string]int64) []string {
	var o []string
	for k := range m {
		// the state in which a deadlocked or failed run stops is compared, intermediate orders are not
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func TestDPORAgainstNaive(t *testing.T) { againstNaive(t) }

func TestDPORAgainstNaiveTryLocks(t *testing.T) {
	tryLocks = true
	defer func() { tryLocks = false }()
	againstNaive(t)
}

func againstNaive(t *testing.T) {
	n, from := 400, 0
	if v := os.Getenv("MC_SELF"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	var dp, nv, skipped int64
	if v := os.Getenv("MC_FROM"); v != "" {
		from, _ = strconv.Atoi(v)
	}
	for seed := from; seed < from+n; seed++ {
		r := rand.New(rand.NewSource(int64(seed)))
		p := genProg(r)
		caps := [2]int{r.Intn(3), r.Intn(2)}
		body := runProg(p, caps)
		cfg := Config{Bound: -1, AllowFatal: true, MaxSteps: 500}
		a := Explore(cfg, time.Now().Add(20*time.Second), body)
		cfg.Naive = true
		b := Explore(cfg, time.Now().Add(3*time.Second), body)
		if a.Error != "" || b.Error != "" {
			t.Fatalf("seed %d: %v: %s %s", seed, p, a.Error, b.Error)
		}
		if !a.Exhaustive || !b.Exhaustive {
			skipped++
			continue
		}
		dp += a.Executions + a.Cut
		nv += b.Executions
		ka, kb := keys(a.Outcomes), keys(b.Outcomes)
		if strings.Join(ka, "\n") != strings.Join(kb, "\n") {
			in := map[string]bool{}
			for _, k := range ka {
				in[k] = true
			}
			miss := ""
			for _, k := range kb {
				if !in[k] {
					miss = k
					break
				}
			}
			t.Fatalf("seed %d: caps %v prog %v\nDPOR %d outcomes (%d execs), naive %d outcomes (%d execs); missing %q", seed, caps, p, len(ka), a.Executions, len(kb), b.Executions, miss)
		}
	}
	t.Logf("programs %d (skipped %d), DPOR executions %d, naive executions %d", n, skipped, dp, nv)
}
