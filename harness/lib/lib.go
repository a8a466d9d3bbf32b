//go:build go1.22

// Package lib is the common part of the property harnesses.
package lib

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/rt"
)

// Scenario is one bounded exploration.
type Scenario struct {
	Name string
	What string // what is enumerated
	// Thorough scenarios only run in the thorough tier.
	Thorough bool
	// Weight divides the time of a tier among scenarios (default 1).
	Weight float64
	// Body is a concurrent scenario: all schedules and choices are explored.
	Body func()
	Cfg  mc.Config
	// MaxBound: when the full exploration does not finish, deviation bounds 0..MaxBound are tried.
	MaxBound int
	// Seq is a sequential scenario: it enumerates cases itself.
	Seq func(c *Cases)
}

// Cases enumerates sequential cases.
type Cases struct {
	Quick    bool
	deadline time.Time
	batch    []Case
	res      *Out
	only     map[string]bool
	stop     bool
	states   map[string]struct{}
	stateIDs map[uint64]struct{}
	race     bool
}

// Case is one input or operation sequence.
type Case struct {
	ID  string
	Run func() // calls mc.Fail on violation
}

// Out is the result of a scenario.
type Out struct {
	Scenario    string            `json:"scenario"`
	What        string            `json:"what"`
	Kind        string            `json:"kind"`
	Executions  int64             `json:"executions"`
	Cut         int64             `json:"cut"`
	States      int64             `json:"states"`
	Transitions int64             `json:"transitions"`
	Outcomes    int               `json:"outcomes"`
	Exhaustive  bool              `json:"exhaustive"`
	Bound       int               `json:"bound"`
	Threads     int               `json:"threads"`
	Longest     int               `json:"longest,omitempty"` // operations of the longest case
	Samples     []string          `json:"samples"`
	Known       map[string]int64  `json:"known,omitempty"`
	KnownMsg    map[string]string `json:"known_msg,omitempty"`
	Violation   *Viol             `json:"violation,omitempty"`
	Error       string            `json:"error,omitempty"`
	Wall        float64           `json:"wall"`
}

// Viol is a violation with what is needed to replay it.
type Viol struct {
	Kind      string   `json:"kind"`
	Msg       string   `json:"msg"`
	Decisions []int    `json:"decisions,omitempty"`
	Case      string   `json:"case,omitempty"`
	Before    []string `json:"before,omitempty"` // cases that have to run before, in the same process
	Trace     []string `json:"trace,omitempty"`
}

type knownT struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Scenario string `json:"scenario"` // prefix
	Kind     string `json:"kind"`
	Contains string `json:"contains"`
	Case     string `json:"case"`
}

var known []knownT
var prop string

func isKnown(scen, cs string) func(v *mc.Violation) string {
	return func(v *mc.Violation) string {
		for _, k := range known {
			if k.Property == prop && strings.HasPrefix(scen, k.Scenario) && k.Kind == v.Kind && strings.Contains(v.Msg, k.Contains) && (k.Case == "" || k.Case == cs) {
				return k.ID
			}
		}
		return ""
	}
}

// Depth is the depth of a tier.
func (c *Cases) Depth(quick, thorough int) int {
	if c.Quick {
		return quick
	}
	return thorough
}

// Add runs a case (later, with others).
func (c *Cases) Add(id string, run func()) {
	if c.stop || (c.only != nil && !c.only[id]) {
		return
	}
	c.batch = append(c.batch, Case{id, run})
	if len(c.batch) >= 200 {
		c.flush()
	}
}

// State records a distinct state of the specification that was reached.
func (c *Cases) State(format string, args ...interface{}) {
	if c.states == nil {
		c.states = map[string]struct{}{}
	}
	if len(c.states) < 2000000 {
		c.states[fmt.Sprintf(format, args...)] = struct{}{}
	}
}

// StateID is State for states that fit a number.
func (c *Cases) StateID(id uint64) {
	if c.stateIDs == nil {
		c.stateIDs = map[uint64]struct{}{}
	}
	c.stateIDs[id] = struct{}{}
}

// Bit is 1 for true.
func Bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Step counts an applied operation.
func (c *Cases) Step(n int) { c.res.Transitions += int64(n) }

// Stopped reports whether enumeration should end.
func (c *Cases) Stopped() bool { return c.stop }

var seqCfg = mc.Config{Bound: 0, MaxSteps: 2000000, Horizon: 1 << 61, MapOrders: 1}

func (c *Cases) flush() {
	b := c.batch
	c.batch = nil
	if len(b) == 0 || c.stop {
		return
	}
	cfg, most := seqCfg, 60
	if c.race {
		// every case alone, with a look for data races
		cfg.Race, cfg.LeaksOK, cfg.MaxSteps, cfg.Horizon, most = true, true, 200000, 0, -1
	}
	cur, first := 0, 0
	for cur < len(b) {
		v := mc.RunOnce(cfg, func() {
			first = cur
			for cur < len(b) && (cur == first || mc.NumThreads() < most) {
				curCase = b[cur].ID
				mc.Anew()
				b[cur].Run()
				if n := mc.Anew(); n > c.res.Longest {
					c.res.Longest = n
				}
				lastBeat++
				cur++
			}
		})
		if v == nil {
			continue
		}
		// alone, in a fresh execution
		k := b[cur]
		v1 := mc.RunOnce(cfg, func() { k.Run() })
		var before []string
		if v1 == nil {
			v1 = v
			v1.Msg += " (only after the preceding cases)"
			for _, p := range b[first:cur] {
				before = append(before, p.ID)
			}
		}
		if id := isKnown(c.res.Scenario, k.ID)(v1); id != "" {
			if c.res.Known == nil {
				c.res.Known, c.res.KnownMsg = map[string]int64{}, map[string]string{}
			}
			c.res.Known[id]++
			c.res.KnownMsg[id] = v1.Msg
			cur++
			continue
		}
		c.res.Violation = &Viol{Kind: v1.Kind, Msg: v1.Msg, Case: k.ID, Before: before, Trace: v1.Trace}
		c.stop = true
		break
	}
	c.res.Executions += int64(len(b))
	curCase = ""
	for _, k := range b {
		if len(c.res.Samples) < 3 || (len(c.res.Samples) < 6 && c.res.Executions%10007 < 200) {
			c.res.Samples = append(c.res.Samples, k.ID)
		}
	}
	if time.Now().After(c.deadline) {
		c.stop = true
		c.res.Exhaustive = false
	}
}

// Seqs enumerates all sequences over n operations with 1..depth elements and
// calls f(seq), which returns the case's run function.
func (c *Cases) Seqs(prefix string, n, depth int, f func(seq []int) func()) {
	seq := make([]int, 0, depth)
	var rec func()
	rec = func() {
		if c.stop {
			return
		}
		if len(seq) == depth {
			cp := append([]int(nil), seq...)
			c.Add(prefix+SeqID(cp), f(cp))
			c.Step(depth)
			return
		}
		for i := 0; i < n; i++ {
			seq = append(seq, i)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

// SeqID names a sequence.
func SeqID(s []int) string {
	var b strings.Builder
	for i, x := range s {
		if i > 0 {
			b.WriteByte('.')
		}
		fmt.Fprint(&b, x)
	}
	return b.String()
}

// Main runs a harness.
func Main(property string, scens []Scenario) {
	prop = property
	list := flag.Bool("list", false, "list scenarios")
	run := flag.String("run", "", "scenario")
	tier := flag.String("tier", "quick", "tier")
	secs := flag.Float64("secs", 30, "time limit")
	out := flag.String("out", "", "result file")
	replay := flag.String("replay", "", "replay file")
	knownF := flag.String("known", "", "known findings")
	flag.Parse()
	log.SetOutput(io.Discard)
	if *knownF != "" {
		var d struct {
			Findings []knownT `json:"findings"`
		}
		b, err := os.ReadFile(*knownF)
		if err == nil {
			err = json.Unmarshal(b, &d)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		known = d.Findings
	}
	if *list {
		for _, s := range scens {
			if s.Thorough && *tier != "thorough" {
				continue
			}
			w := s.Weight
			if w == 0 {
				w = 1
			}
			fmt.Printf("%s\t%g\n", s.Name, w)
		}
		return
	}
	if *replay != "" {
		os.Exit(doReplay(scens, *replay))
	}
	for _, s := range scens {
		if s.Name == *run {
			start := time.Now()
			write := func(o *Out) {
				b, _ := json.MarshalIndent(o, "", " ")
				if *out == "" {
					fmt.Println(string(b))
					return
				}
				if err := os.WriteFile(*out, b, 0o644); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(2)
				}
			}
			watch(func(v *Viol) {
				write(&Out{Scenario: s.Name, What: s.What, Executions: 1, Violation: v, Wall: time.Since(start).Seconds()})
				os.Exit(0)
			})
			if p := os.Getenv("VERIF_PROFILE"); p != "" {
				if f, err := os.Create(p); err == nil {
					pprof.StartCPUProfile(f)
					defer pprof.StopCPUProfile()
				}
			}
			write(runScenario(s, *tier != "thorough", time.Duration(*secs*float64(time.Second)), nil))
			return
		}
	}
	fmt.Fprintf(os.Stderr, "no scenario %q\n", *run)
	os.Exit(2)
}

var (
	curCase  string
	lastBeat int64
)

// hangLimit is how long one execution may go on without any operation.
const hangLimit = 40 * time.Second

// watch calls onHang if nothing happens for too long.
func watch(onHang func(*Viol)) {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			b := mc.Beat() + lastBeat<<20
			if b != last {
				last, since = b, time.Now()
				continue
			}
			if time.Since(since) > hangLimit {
				decs, desc := mc.Current()
				buf := make([]byte, 1<<16)
				st := string(buf[:runtime.Stack(buf, true)])
				onHang(&Viol{Kind: "hang", Msg: "code runs or blocks forever outside the scheduler: " + desc, Decisions: decs, Case: curCase, Trace: strings.Split(st, "\n")})
			}
		}
	}()
}

func runScenario(s Scenario, quick bool, limit time.Duration, only map[string]bool) *Out {
	start := time.Now()
	o := &Out{Scenario: s.Name, What: s.What, Bound: -1}
	defer func() { o.Wall = time.Since(start).Seconds() }()
	if s.Seq != nil {
		o.Kind = "sequences"
		o.Exhaustive = true
		c := &Cases{Quick: quick, deadline: start.Add(limit), res: o, only: only, race: s.Cfg.Race}
		s.Seq(c)
		c.flush()
		o.States = int64(len(c.states) + len(c.stateIDs))
		if only == nil && o.Executions == 0 {
			o.Error = "no cases"
		}
		return o
	}
	o.Kind = "schedules"
	cfg := s.Cfg
	cfg.Known = isKnown(s.Name, "")
	cfg.Bound = 0
	add := func(r *mc.Result) {
		o.Executions += r.Executions
		o.Cut += r.Cut
		o.States += r.States
		o.Transitions += r.Transitions
		if n := len(r.Outcomes); n > o.Outcomes {
			o.Outcomes = n
		}
		if r.MaxThreads > o.Threads {
			o.Threads = r.MaxThreads
		}
		if len(o.Samples) == 0 {
			o.Samples = r.Sample
		}
		for k, n := range r.Known {
			if o.Known == nil {
				o.Known, o.KnownMsg = map[string]int64{}, map[string]string{}
			}
			o.Known[k] += n
			o.KnownMsg[k] = r.KnownMsg[k]
		}
		if r.Error != "" {
			o.Error = r.Error
		}
		if r.Violation != nil {
			v, tr, div := mc.ReplayRun(cfg, r.Decisions, s.Body)
			o.Violation = &Viol{Kind: r.Violation.Kind, Msg: r.Violation.Msg, Decisions: r.Decisions, Trace: tr}
			if v == nil || v.Kind != r.Violation.Kind {
				o.Violation.Trace = append(o.Violation.Trace, "(replay in the same process differed: "+div+")")
			}
		}
	}
	// small bounds first: they find most violations soon; then everything
	share := func(f float64) time.Time { return time.Now().Add(time.Duration(float64(limit) * f)) }
	cfg.Bound = 0
	r := mc.Explore(cfg, share(0.2), s.Body)
	add(r)
	if o.Violation != nil || o.Error != "" {
		return o
	}
	if r.Exhaustive || r.Bound == 0 {
		o.Bound = 0
	}
	cfg.Bound = -1
	full := 0.6
	if s.MaxBound < 0 {
		full = 0
	}
	if full > 0 {
		r = mc.Explore(cfg, share(full), s.Body)
		add(r)
		if o.Violation != nil || o.Error != "" {
			return o
		}
		if r.Exhaustive {
			o.Exhaustive = true
			o.Bound = -1
			return o
		}
	}
	end := start.Add(limit)
	mb := s.MaxBound
	if mb <= 0 {
		mb = 3
	}
	for b := 1; b <= mb && time.Now().Before(end); b++ {
		cfg.Bound = b
		r = mc.Explore(cfg, end, s.Body)
		add(r)
		if o.Violation != nil || o.Error != "" {
			return o
		}
		if r.Bound == b {
			o.Bound = b
		}
	}
	return o
}

// Replay is the contents of a replay file.
type Replay struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Viol     *Viol  `json:"violation"`
}

func doReplay(scens []Scenario, file string) int {
	b, err := os.ReadFile(file)
	var r Replay
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range scens {
		if s.Name != r.Scenario {
			continue
		}
		if s.Seq != nil {
			watch(func(v *Viol) {
				fmt.Println(v.Kind+":", v.Msg)
				os.Exit(1)
			})
			for _, q := range []bool{true, false} {
				only := map[string]bool{r.Viol.Case: true}
				for _, id := range r.Viol.Before {
					only[id] = true
				}
				o := runScenario(s, q, 10*time.Minute, only)
				if o.Violation != nil {
					fmt.Println(o.Violation.Kind+":", o.Violation.Msg)
					return 1
				}
				if o.Executions > 0 {
					break
				}
			}
			return 0
		}
		watch(func(v *Viol) {
			fmt.Println(v.Kind+":", v.Msg)
			os.Exit(1)
		})
		v, tr, div := mc.ReplayRun(s.Cfg, r.Viol.Decisions, s.Body)
		for _, l := range tr {
			fmt.Println(l)
		}
		if v != nil {
			fmt.Println(v.Kind+":", v.Msg)
			return 1
		}
		if div != "" {
			fmt.Println("replay diverged:", div)
			return 3
		}
		return 0
	}
	return 2
}

// SortedKeys returns the keys of a map in order.
func SortedKeys[V any](m map[string]V) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// Guard runs f and returns a description of its panic, if any.
func Guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

// Join waits for goroutines started with Go.
type Join struct{ wg mc.WaitGroup }

// Go starts a joined goroutine.
func (j *Join) Go(name string, f func()) {
	j.wg.Add(1)
	mc.GoNamed(name, func() { defer j.wg.Done(); f() })
}

// Wait waits for all of them.
func (j *Join) Wait() { j.wg.Wait() }

// Part shows a sequence, the end of it if it is long.
func Part(seq []int) string {
	if n := len(seq); n > 40 {
		return fmt.Sprintf("%d operations that end in %v", n, seq[n-40:])
	}
	return fmt.Sprint(seq)
}
