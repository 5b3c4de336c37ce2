// Package vsched is a cooperative scheduler for instrumented Go code. Exactly one
// managed goroutine ("thread") runs at a time; at every scheduling point (lock,
// channel, atomic, spawn, and - if enabled - every statement of instrumented code)
// the scheduler decides which enabled thread goes on. All decisions of an execution
// form a list of small integers, so an execution can be replayed and the tree of
// executions can be enumerated (see explore.go).
//
// No maps and no growing slices are touched from inside managed threads: in race
// mode the runtime would report those as races between threads.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

const (
	maxThreads = 48
	maxPoints  = 20000
	maxTimers  = 256
	maxCases   = 8
	maxLog     = 20000
)

type status int8

const (
	stRunnable status = iota
	stBlocked
	stDone
)

// thread is one managed goroutine.
type thread struct {
	id      int
	name    string
	st      status
	resume  chan struct{}
	kill    bool
	ops     int
	loc     string
	what    string
	ready   func() bool // nil: runnable; otherwise enabled iff ready()
	exited  chan struct{}
	waits   [maxCases]waitCase // channel cases this thread is blocked on
	nwaits  int
	fired   int // index of a case completed by a partner, -1 none
	bg      bool
	gosched bool    // yielded: prefer others
	code    uintptr // the function it runs
	hist    uint64  // what it has done (0: it is like no other thread), see X.Symmetric
	pool    bool    // see X.Pool
}

type waitCase struct {
	ch   unsafe.Pointer
	send bool
	c    SelCase
}

// Point is a decision made in an execution.
type Point struct {
	N        int  // number of alternatives
	Chosen   int  // alternative taken
	CurOn    bool // alternative 0 is the thread that was running (so alt>0 costs one deviation)
	Data     bool // data choice
	DataCost bool // data choice: alternatives other than 0 cost one deviation
	Tid      int8 // thread chosen
}

type timer struct {
	at     int64
	period int64
	live   bool
	fire   func(now int64)
}

// Sched is one execution.
type Sched struct {
	cfg      *Config
	threads  [maxThreads]*thread
	n        int
	cur      *thread
	points   [maxPoints]Point
	np       int
	prefix   []int
	diverged string
	quiet    int
	now      int64
	timers   [maxTimers]timer
	ntimers  int
	fires    int
	mainDone chan struct{}
	dead     bool // execution over: ops become no-ops, threads exit
	verdict  string
	panicV   string
	joined   int32
	hash     uint64
	inOthers bool
	steps    int
	trace    [maxLog]traceEnt
	ntrace   int
	states   *hashSet
}

type traceEnt struct {
	tid  int
	what string
	loc  string
}

// cur execution; nil when no scheduler is active.
var active *Sched

// PlainPoints makes Step() a scheduling point (otherwise only synchronisation operations are).
var PlainPoints = false

// Active reports whether an execution is being scheduled.
//
//go:norace
func Active() bool { return active != nil && !active.dead }

const base = int64(1700000000) * int64(time.Second)

var offNow int64 // virtual time when no scheduler is active

// Offline tells whether no execution is under way.
//
//go:norace
func Offline() bool { return active == nil }

// NowNanos returns virtual time.
//
//go:norace
func NowNanos() int64 {
	if s := active; s != nil {
		return base + s.now
	}
	return base + offNow
}

// Advance moves virtual time forward outside of scheduling decisions.
//
//go:norace
func Advance(d time.Duration) {
	if s := active; s != nil {
		s.now += int64(d)
		return
	}
	offNow += int64(d)
}

// SetOffline sets the virtual clock used when no execution is active.
//
//go:norace
func SetOffline(d time.Duration) { offNow = int64(d) }

//go:norace
func (s *Sched) log(t *thread, what, loc string) {
	if s.ntrace < maxLog {
		s.trace[s.ntrace] = traceEnt{t.id, what, loc}
		s.ntrace++
	}
}

// Step is inserted before every statement of instrumented code.
//
//go:norace
func Step(loc string) {
	s := active
	if s == nil || s.dead || !PlainPoints {
		return
	}
	if s.quiet > 0 {
		return
	}
	s.cur.loc = loc
	s.point("step", nil)
}

// Op is a scheduling point before a synchronisation operation that cannot block.
//
//go:norace
func Op(what string) {
	s := active
	if s == nil {
		return
	}
	if s.dead {
		return
	}
	s.point(what, nil)
}

// Block is a scheduling point before an operation that can go ahead only when ready() holds.
//
//go:norace
func Block(what string, ready func() bool) {
	s := active
	if s == nil {
		if !ready() {
			panic("vsched: blocking operation outside of a scheduled execution: " + what)
		}
		return
	}
	if s.dead {
		return
	}
	s.point(what, ready)
}

// Yield is a voluntary scheduling point: going on with another thread costs nothing.
//
//go:norace
func Yield() {
	s := active
	if s == nil || s.dead {
		return
	}
	s.cur.gosched = true
	s.point("yield", nil)
}

//go:norace
func (t *thread) enabled() bool {
	if t.st == stDone {
		return false
	}
	return t.ready == nil || t.ready()
}

// point is called by the running thread, which announces its next operation.
//
//go:norace
func (s *Sched) point(what string, ready func() bool) {
	t := s.cur
	t.what = what
	t.ready = ready
	t.ops++
	s.steps++
	if s.quiet > 0 && t.enabled() && !t.gosched {
		t.ready = nil
		return
	}
	if s.steps > s.cfg.MaxSteps {
		s.finish("horizon: more than " + fmt.Sprint(s.cfg.MaxSteps) + " steps (livelock?)")
		s.park(t)
		return
	}
	s.schedule(t)
	t.ready = nil
}

// schedule picks the next thread and hands the token over if it is not t.
//
//go:norace
func (s *Sched) schedule(t *thread) {
	next := s.pick(t)
	if next == nil {
		s.park(t)
		return
	}
	if next == t {
		return
	}
	s.cur = next
	raceDisable()
	next.resume <- struct{}{}
	<-t.resume
	raceEnable()
	if t.kill {
		runtime.Goexit()
	}
}

// park blocks t until the end of the execution.
//
//go:norace
func (s *Sched) park(t *thread) {
	raceDisable()
	<-t.resume
	raceEnable()
	if t.kill {
		runtime.Goexit()
	}
}

// pick decides which thread goes on. t is the running thread (possibly blocked or done).
//
//go:norace
func (s *Sched) pick(t *thread) *thread {
	for {
		var en [maxThreads]*thread
		n := 0
		curOn := false
		if t.enabled() && !t.gosched {
			en[0] = t
			n = 1
			curOn = true
		}
		for i := 0; i < s.n; i++ {
			o := s.threads[i]
			if o == t && curOn {
				continue
			}
			if o.enabled() {
				if o == t || o.hist != 0 && alike(o, en[:n]) {
					continue
				}
				en[n] = o
				n++
			}
		}
		if t.gosched {
			t.gosched = false
			if t.enabled() {
				en[n] = t
				n++
			}
		}
		if n == 0 {
			if s.fireTimer() {
				continue
			}
			s.finish(s.describeDeadlock())
			return nil
		}
		alts := n
		// A pending timer may also land now, ahead of every enabled thread.
		timerAlt := -1
		if s.quiet == 0 && s.cfg.EarlyTimers && s.fires < s.cfg.MaxFires && s.pendingTimer() >= 0 {
			timerAlt = alts
			alts++
		}
		c := 0
		if s.quiet == 0 && alts > 1 {
			c = s.decide(alts, curOn || timerAlt >= 0 || s.cfg.Delay, false, false)
			if c < 0 {
				return nil
			}
		}
		if c == timerAlt && timerAlt >= 0 {
			s.fireTimer()
			continue
		}
		next := en[c]
		if next.hist != 0 {
			next.remember()
		}
		s.mix(uint64(next.id), uint64(next.ops))
		s.log(next, next.what, next.loc)
		return next
	}
}

// alike tells whether a thread that is interchangeable with o is among en.
//
//go:norace
func alike(o *thread, en []*thread) bool {
	for _, e := range en {
		if e.hist == o.hist && e.what == o.what && e.loc == o.loc {
			return true
		}
	}
	return false
}

// remember adds the operation that a thread performs next to its history. Anything but starting,
// waiting for a channel and passing a statement makes it unlike any other thread.
//
//go:norace
func (t *thread) remember() {
	switch t.what {
	case "start", "select", "recv":
		t.hist = t.hist*1099511628211 ^ uint64(len(t.what))
	case "step":
		for i := 0; i < len(t.loc); i++ {
			t.hist = (t.hist ^ uint64(t.loc[i])) * 1099511628211
		}
	default:
		t.hist = 0
		return
	}
	t.hist |= 1
}

// decide records a choice among n alternatives.
//
//go:norace
func (s *Sched) decide(n int, curOn, data, dcost bool) int {
	if s.np >= maxPoints-1 {
		s.finish("horizon: too many decisions")
		return -1
	}
	c := 0
	if s.np < len(s.prefix) {
		c = s.prefix[s.np]
		if c >= n {
			s.diverged = fmt.Sprintf("replay diverged at decision %d: choice %d of %d", s.np, c, n)
			s.finish(s.diverged)
			return -1
		}
	}
	s.points[s.np] = Point{N: n, Chosen: c, CurOn: curOn, Data: data, DataCost: dcost}
	s.np++
	return c
}

//go:norace
func (s *Sched) mix(a, b uint64) {
	// Control-state hash: multiset of (thread, operations executed).
	h := uint64(14695981039346656037)
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		h = (h ^ uint64(t.ops+1)) * 1099511628211
		h ^= h >> 29
	}
	h = (h ^ uint64(s.now)) * 1099511628211
	h = (h ^ a) * 1099511628211
	s.hash = h
	if s.states != nil && s.quiet == 0 {
		s.states.add(h)
	}
}

//go:norace
func (s *Sched) pendingTimer() int {
	best := -1
	for i := 0; i < s.ntimers; i++ {
		if s.timers[i].live && (best < 0 || s.timers[i].at < s.timers[best].at) {
			best = i
		}
	}
	return best
}

//go:norace
func (s *Sched) fireTimer() bool {
	b := s.pendingTimer()
	if b < 0 || s.fires >= s.cfg.MaxFires {
		return false
	}
	s.fires++
	tm := &s.timers[b]
	if tm.at > s.now {
		s.now = tm.at
	}
	if tm.period > 0 {
		tm.at += tm.period
	} else {
		tm.live = false
	}
	tm.fire(s.now)
	return true
}

// AddTimer registers fire to run at virtual time now+d (and every period after). It returns a handle.
//
//go:norace
func AddTimer(d, period time.Duration, fire func(now int64)) int {
	s := active
	if s == nil || s.dead {
		return -1
	}
	if d < 0 {
		d = 0
	}
	i := 0
	for ; i < s.ntimers; i++ {
		if !s.timers[i].live {
			break
		}
	}
	if i == s.ntimers {
		if i == maxTimers {
			panic("vsched: too many timers")
		}
		s.ntimers++
	}
	s.timers[i] = timer{at: s.now + int64(d), period: int64(period), live: true, fire: fire}
	return i
}

// StopTimer cancels a timer and reports whether it was pending.
//
//go:norace
func StopTimer(i int) bool {
	s := active
	if s == nil || i < 0 {
		return false
	}
	l := s.timers[i].live
	s.timers[i].live = false
	return l
}

// Sleep blocks the thread for d of virtual time.
//
//go:norace
func Sleep(d time.Duration) {
	s := active
	if s == nil {
		time.Sleep(d)
		return
	}
	if s.dead {
		return
	}
	woke := false
	AddTimer(d, 0, func(int64) { woke = true })
	s.point("sleep", func() bool { return woke })
}

//go:norace
func (s *Sched) describeDeadlock() string {
	var b strings.Builder
	b.WriteString("deadlock: no thread can go on:")
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t.st != stDone {
			fmt.Fprintf(&b, " [%d %s waits for %s %s]", t.id, t.name, t.what, t.loc)
		}
	}
	return b.String()
}

// finish ends the execution with a verdict ("" for a normal end).
//
//go:norace
func (s *Sched) finish(v string) {
	if s.dead {
		return
	}
	s.dead = true
	s.verdict = v
	raceDisable()
	close(s.mainDone)
	raceEnable()
}

// spawn registers a new thread; it becomes enabled at once.
//
//go:norace
func (s *Sched) spawn(name string, bg bool, f func()) *thread {
	if s.n == maxThreads {
		panic("vsched: too many threads")
	}
	t := &thread{id: s.n, name: name, code: **(**uintptr)(unsafe.Pointer(&f)), resume: make(chan struct{}), exited: make(chan struct{}), what: "start", bg: bg, fired: -1}
	s.threads[s.n] = t
	s.n++
	go s.run(t, f)
	return t
}

//go:norace
func (s *Sched) run(t *thread, f func()) {
	raceDisable()
	defer func() {
		raceDisable()
		close(t.exited)
		raceEnable()
	}()
	<-t.resume
	raceEnable()
	if t.kill {
		return
	}
	defer func() {
		r := recover()
		if s.dead { // torn down
			return
		}
		t.st = stDone
		if r != nil {
			st := string(debug.Stack())
			if len(st) > 4000 {
				st = st[:4000]
			}
			s.panicV = fmt.Sprintf("%v", r)
			s.finish("panic in thread " + t.name + ": " + s.panicV + "\n" + st)
			return
		}
		RaceReleaseMerge(unsafe.Pointer(&s.joined))
		if t.id == 0 {
			s.finish("")
			return
		}
		next := s.pick(t)
		if next == nil {
			return
		}
		s.cur = next
		raceDisable()
		next.resume <- struct{}{}
		raceEnable()
	}()
	f()
}

// Go starts a managed thread (the instrumented form of a go statement).
//
//go:norace
func Go(f func()) {
	s := active
	if s == nil {
		go f()
		return
	}
	if s.dead {
		return
	}
	s.spawn("go", true, f)
	s.point("go", nil)
}

// GoQuiet starts a managed thread that goes straight to its first blocking operation; starting it
// is no scheduling point.
//
//go:norace
func GoQuiet(name string, f func()) {
	s := active
	if s == nil || s.dead {
		return
	}
	s.spawn(name, true, f)
}

// SpawnFromTimer starts a thread when a timer fires.
//
//go:norace
func SpawnFromTimer(f func()) {
	s := active
	if s == nil || s.dead {
		return
	}
	s.spawn("timer", true, f)
}

// TornDown reports whether the current execution is over and its threads are being unwound.
//
//go:norace
func TornDown() bool { return active != nil && active.dead }
