package vsched

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Config bounds an exploration.
type Config struct {
	Bound       int  // deviations (preemptions, early timers, costed data choices)
	Delay       bool // every departure from the first thread in order costs a deviation, also where the running thread blocks
	MaxSteps    int  // horizon per execution
	EarlyTimers bool // a pending timer may fire while threads are enabled (one deviation)
	MaxFires    int  // timer firings per execution
	MaxExecs    int64
	Deadline    time.Time
	Shard, Of   int // this process explores the subtrees k with k%Of==Shard; subtrees hang off the root, or off its children if these are few
	AllowDead   bool
}

// hashSet is a fixed-size open-addressing set (usable inside managed threads in race mode).
type hashSet struct {
	tab  []uint64
	n    int
	full bool
}

//go:norace
func newHashSet(bits uint) *hashSet { return &hashSet{tab: make([]uint64, 1<<bits)} }

//go:norace
func (h *hashSet) add(v uint64) {
	if v == 0 {
		v = 1
	}
	if h.n > len(h.tab)*3/4 {
		h.full = true
		return
	}
	m := uint64(len(h.tab) - 1)
	i := (v * 0x9E3779B97F4A7C15) >> 20 & m
	for {
		if h.tab[i] == v {
			return
		}
		if h.tab[i] == 0 {
			h.tab[i] = v
			h.n++
			return
		}
		i = (i + 1) & m
	}
}

// X is what a harness body uses to drive one execution.
type X struct {
	s        *Sched
	failure  string
	outcomes []string
	children []*thread
	sawRace  int
}

// Go starts a harness thread.
//
//go:norace
func (x *X) Go(name string, f func()) {
	t := x.s.spawn(name, false, f)
	x.children = append(x.children, t)
}

// Symmetric declares the threads that exist now and run the same code to be interchangeable as long
// as they have done the same: of those that could go on, one is tried.
//
//go:norace
func (x *X) Symmetric() {
	for i := 1; i < x.s.n; i++ {
		t := x.s.threads[i]
		t.hist = uint64(t.code)*2 | 1
	}
}

// Pool declares, in addition to Symmetric, that threads waiting in the same select statement are alike
// whatever they have done before: workers that keep nothing from one task to the next.
//
//go:norace
func (x *X) Pool() {
	x.Symmetric()
	for i := 1; i < x.s.n; i++ {
		x.s.threads[i].pool = true
	}
}

// Wait explores: it lets the threads started with Go run under all schedules until they are done.
//
//go:norace
func (x *X) Wait() {
	s := x.s
	s.quiet--
	ch := x.children
	s.point("wait", func() bool {
		for _, t := range ch {
			if t.st != stDone {
				return false
			}
		}
		return true
	})
	s.quiet++
	RaceAcquire(unsafe.Pointer(&s.joined))
	x.children = nil
}

// Explore runs f on the main thread with scheduling decisions enabled.
//
//go:norace
func (x *X) Explore(f func()) {
	x.s.quiet--
	f()
	x.s.quiet++
}

// Settle lets every other thread run (without decisions, without time passing) until all are blocked.
//
//go:norace
func (x *X) Settle() {
	s := x.s
	for i := 0; i < 10000; i++ {
		any := false
		for j := 0; j < s.n; j++ {
			if t := s.threads[j]; t != s.cur && t.enabled() {
				any = true
			}
		}
		if !any {
			return
		}
		s.cur.gosched = true
		s.point("settle", nil)
	}
	x.Fail("livelock: other threads never settle")
}

// SettleTime settles and lets up to n pending timers fire.
//
//go:norace
func (x *X) SettleTime(n int) {
	x.Settle()
	for i := 0; i < n; i++ {
		if !x.s.fireTimer() {
			return
		}
		x.Settle()
	}
}

// PendingTimers reports whether a timer is pending.
//
//go:norace
func (x *X) PendingTimers() bool { return x.s.pendingTimer() >= 0 }

// Live returns how many threads other than the caller have not ended, and how many of them are blocked.
//
//go:norace
func (x *X) Live() (live int) {
	for j := 0; j < x.s.n; j++ {
		if t := x.s.threads[j]; t != x.s.cur && t.st != stDone {
			live++
		}
	}
	return
}

// Choose explores n alternatives at no cost; ChooseDev charges one deviation for each but the first.
//
//go:norace
func Choose(n int) int { return choose(n, false) }

//go:norace
func ChooseDev(n int) int { return choose(n, true) }

//go:norace
func choose(n int, dev bool) int {
	s := active
	if s == nil || s.dead || n <= 1 {
		return 0
	}
	c := s.decide(n, false, true, dev)
	if c < 0 {
		s.park(s.cur)
	}
	return c
}

// Fail records a property violation in this execution.
//
//go:norace
func (x *X) Fail(format string, a ...any) {
	if x.failure == "" {
		x.failure = fmt.Sprintf(format, a...)
	}
}

// Outcome records an observable result of this execution (distinct ones are counted).
//
//go:norace
func (x *X) Outcome(format string, a ...any) {
	x.outcomes = append(x.outcomes, fmt.Sprintf(format, a...))
}

// Advance moves virtual time.
//
//go:norace
func (x *X) Advance(d time.Duration) { x.s.now += int64(d) }

// Stats are the measured results of an exploration.
type Stats struct {
	Execs      int64
	Steps      int64
	Decisions  int64
	States     int64
	Outcomes   map[string]int64
	Exhausted  bool
	Cap        string
	Violation  string
	Choices    []int
	Trace      []string
	MaxThreads int
	PerBound   []int64
	set        *hashSet
}

type explorer struct {
	cfg   Config
	body  func(x *X)
	s     *Sched
	st    *Stats
	stop  bool
	dealt [maxPoints]int
	split int // level at which subtrees are dealt out
	set   *hashSet
}

var pooled *Sched

// Explore enumerates all executions of body within cfg's bounds.
//
//go:norace
func Explore(cfg Config, body func(x *X)) *Stats {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 15000
	}
	if cfg.MaxFires == 0 {
		cfg.MaxFires = 64
	}
	if cfg.Of == 0 {
		cfg.Of = 1
	}
	e := &explorer{cfg: cfg, body: body, st: &Stats{Outcomes: map[string]int64{}, Exhausted: true}}
	e.set = newHashSet(20)
	e.st.set = e.set
	e.st.PerBound = make([]int64, cfg.Bound+1)
	e.explore(nil, 0, 0)
	e.st.States = int64(e.set.n)
	if e.set.full {
		e.st.Cap += "state set full (count is a lower bound);"
	}
	return e.st
}

// Replay runs one execution with the given decisions.
//
//go:norace
func Replay(cfg Config, choices []int, body func(x *X)) *Stats {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 15000
	}
	if cfg.MaxFires == 0 {
		cfg.MaxFires = 64
	}
	cfg.Of = 1
	e := &explorer{cfg: cfg, body: body, st: &Stats{Outcomes: map[string]int64{}}}
	e.set = newHashSet(12)
	e.st.set = e.set
	e.st.PerBound = make([]int64, cfg.Bound+2)
	e.run(choices)
	return e.st
}

//go:norace
func (e *explorer) run(prefix []int) (pts []Point) {
	if pooled == nil {
		pooled = &Sched{}
	}
	s := pooled
	s.cfg = &e.cfg
	for i := 0; i < s.n; i++ {
		s.threads[i] = nil
	}
	s.n, s.np, s.quiet, s.now, s.ntimers, s.fires, s.dead = 0, 0, 1, 0, 0, 0, false
	s.verdict, s.panicV, s.diverged, s.steps, s.ntrace = "", "", "", 0, 0
	s.prefix = prefix
	s.states = e.set
	s.mainDone = make(chan struct{})
	x := &X{s: s, sawRace: RaceErrors()}
	active = s
	s.cur = nil
	t := s.spawn("main", false, func() { e.body(x) })
	s.cur = t
	raceDisable()
	t.resume <- struct{}{}
	<-s.mainDone
	raceEnable()
	// Tear down the threads that are left.
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t.st != stDone {
			t.kill = true
			raceDisable()
			select {
			case t.resume <- struct{}{}:
				<-t.exited
			case <-t.exited:
			case <-time.After(20 * time.Second):
				fmt.Fprintln(os.Stderr, "vsched: thread does not stop:", t.name, t.what, t.loc)
			}
			raceEnable()
		} else {
			raceDisable()
			<-t.exited
			raceEnable()
		}
	}
	active = nil
	st := e.st
	st.Execs++
	st.Steps += int64(s.steps)
	st.Decisions += int64(s.np)
	if s.n > st.MaxThreads {
		st.MaxThreads = s.n
	}
	if s.diverged != "" {
		fmt.Fprintln(os.Stderr, "vsched:", s.diverged)
		if x.failure == "" {
			st.Cap += s.diverged + ";"
			st.Exhausted = false
			return nil
		}
	}
	sort.Strings(x.outcomes)
	st.Outcomes[strings.Join(x.outcomes, "|")]++
	v := x.failure
	if v == "" && s.verdict != "" && !strings.HasPrefix(s.verdict, "replay") {
		v = s.verdict
	}
	race := ""
	if v == "" && RaceMode && RaceErrors() > x.sawRace {
		if race = RaceReport(); race != "" {
			v = "data race"
		}
	}
	pts = append([]Point(nil), s.points[:s.np]...)
	if v != "" {
		st.Violation = v
		st.Choices = nil
		for _, p := range pts {
			st.Choices = append(st.Choices, p.Chosen)
		}
		// trailing zeros are the default decision
		for len(st.Choices) > 0 && st.Choices[len(st.Choices)-1] == 0 {
			st.Choices = st.Choices[:len(st.Choices)-1]
		}
		st.Trace = nil
		last := -1
		for i := 0; i < s.ntrace; i++ {
			en := s.trace[i]
			if en.tid != last || en.what != "step" {
				name := fmt.Sprint(en.tid)
				if th := s.threads[en.tid]; th != nil {
					name = fmt.Sprintf("%d(%s)", en.tid, th.name)
				}
				st.Trace = append(st.Trace, fmt.Sprintf("%s %s %s", name, en.what, en.loc))
			}
			last = en.tid
		}
		if race != "" {
			st.Trace = append(strings.Split(race, "\n"), append([]string{"in this schedule:"}, st.Trace...)...)
		}
		e.stop = true
	}
	return pts
}

//go:norace
func (e *explorer) explore(prefix []int, cost, level int) {
	if e.stop {
		return
	}
	if e.cfg.MaxExecs > 0 && e.st.Execs >= e.cfg.MaxExecs {
		e.st.Exhausted = false
		e.st.Cap = "execution cap reached"
		e.stop = true
		return
	}
	if !e.cfg.Deadline.IsZero() && e.st.Execs&15 == 0 && time.Now().After(e.cfg.Deadline) {
		e.st.Exhausted = false
		e.st.Cap = "time cap reached"
		e.stop = true
		return
	}
	pts := e.run(prefix)
	if cost < len(e.st.PerBound) {
		e.st.PerBound[cost]++
	}
	if level <= e.split && e.cfg.Shard != 0 {
		// executions above the subtrees are counted by shard 0 only
		e.st.Execs--
		e.st.PerBound[cost]--
	}
	if level == 0 {
		e.split = 0
		if e.cfg.Of > 1 && e.children(pts, 0, 0) < 100 {
			e.split = 1
		}
	}
	if e.stop || pts == nil {
		return
	}
	for i := len(prefix); i < len(pts); i++ {
		p := pts[i]
		for alt := 1; alt < p.N; alt++ {
			c := cost + p.cost()
			if c > e.cfg.Bound {
				continue
			}
			if level == e.split {
				// by position: subtrees that start at the same decision are of similar size
				k := e.dealt[i]
				e.dealt[i]++
				if (k+i)%e.cfg.Of != e.cfg.Shard {
					continue
				}
			}
			np := make([]int, i+1)
			for j := 0; j < i; j++ {
				np[j] = pts[j].Chosen
			}
			np[i] = alt
			e.explore(np, c, level+1)
			if e.stop {
				return
			}
		}
	}
}

// cost of an alternative other than the first.
//
//go:norace
func (p Point) cost() int {
	if p.Data && p.DataCost || !p.Data && p.CurOn {
		return 1
	}
	return 0
}

// children counts the alternatives to an execution.
//
//go:norace
func (e *explorer) children(pts []Point, from, cost int) (n int) {
	for i := from; i < len(pts); i++ {
		if cost+pts[i].cost() <= e.cfg.Bound {
			n += pts[i].N - 1
		}
	}
	return
}

// EachState calls f for every distinct control state reached.
//
//go:norace
func (st *Stats) EachState(f func(h uint64)) {
	for _, v := range st.set.tab {
		if v != 0 {
			f(v)
		}
	}
}

// OthersBlocked reports whether every other live thread is blocked (for use in readiness conditions;
// conditions that depend on it must not depend on each other).
//
//go:norace
func (x *X) OthersBlocked() bool {
	s := x.s
	if s.inOthers {
		return false
	}
	s.inOthers = true
	defer func() { s.inOthers = false }()
	for j := 0; j < s.n; j++ {
		t := s.threads[j]
		if t.st == stDone || t.what == "origin gate" {
			continue
		}
		if t.enabled() {
			return false
		}
	}
	return true
}
