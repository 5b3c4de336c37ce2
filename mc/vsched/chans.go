package vsched

import (
	"reflect"
	"runtime"
	"sort"
	"unsafe"
)

// Real Go channels carry the values of buffered channels and closings. A rendezvous on an
// unbuffered channel is modelled by the scheduler: the thread chosen second completes both.

type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

//go:norace
func init() {
	c := make(chan int, 3)
	c <- 1
	h := *(**hchan)(unsafe.Pointer(&c))
	if h.qcount != 1 || h.dataqsiz != 3 || h.closed != 0 {
		panic("vsched: unexpected channel layout in " + runtime.Version())
	}
	close(c)
	if h.closed != 1 {
		panic("vsched: unexpected channel layout in " + runtime.Version())
	}
}

//go:norace
func (h *hchan) unbuffered() bool { return h.dataqsiz == 0 }

// partner returns a thread other than t blocked on the opposite operation on h.
//
//go:norace
func (s *Sched) partner(t *thread, h unsafe.Pointer, wantSend bool) (*thread, int) {
	for i := 0; i < s.n; i++ {
		o := s.threads[i]
		if o == t || o.st == stDone || o.fired >= 0 {
			continue
		}
		for k := 0; k < o.nwaits; k++ {
			if o.waits[k].ch == h && o.waits[k].send == wantSend {
				return o, k
			}
		}
	}
	return nil, 0
}

//go:norace
func caseReady(s *Sched, t *thread, w *waitCase) bool {
	h := (*hchan)(w.ch)
	if h == nil {
		return false
	}
	if w.send {
		if h.closed != 0 {
			return true // will panic
		}
		if !h.unbuffered() {
			return h.qcount < h.dataqsiz
		}
		o, _ := s.partner(t, w.ch, false)
		return o != nil
	}
	if h.qcount > 0 || h.closed != 0 {
		return true
	}
	if h.unbuffered() {
		o, _ := s.partner(t, w.ch, true)
		return o != nil
	}
	return false
}

// wait is the core of send, receive and select: it blocks until one of the cases in t.waits can
// go ahead and returns its index and whether a partner completed it. hasDefault: do not block.
//
//go:norace
func (s *Sched) wait(t *thread, n int, hasDefault bool) (idx int, completed bool) {
	t.nwaits = n
	t.fired = -1
	what := "recv"
	if n > 1 || hasDefault {
		what = "select"
	} else if n == 1 && t.waits[0].send {
		what = "send"
	}
	if hasDefault {
		t.nwaits = 0 // not visible to partners while it has not been scheduled: it never blocks
		s.point(what, nil)
	} else {
		s.point(what, func() bool {
			if t.fired >= 0 {
				return true
			}
			for i := 0; i < n; i++ {
				if caseReady(s, t, &t.waits[i]) {
					return true
				}
			}
			return false
		})
	}
	t.nwaits = 0
	if s.dead {
		return -1, false
	}
	if t.fired >= 0 {
		i := t.fired
		t.fired = -1
		t.hist = 0
		return i, true
	}
	var rdy [maxCases]int
	m := 0
	for i := 0; i < n; i++ {
		if caseReady(s, t, &t.waits[i]) {
			rdy[m] = i
			m++
		}
	}
	if m == 0 {
		return -1, false // default
	}
	c := 0
	if m > 1 && s.quiet == 0 {
		c = s.decide(m, false, true, false) // Go picks any ready case
		if c < 0 {
			s.park(t)
		}
	}
	if t.hist != 0 && (t.waits[rdy[c]].send || (*hchan)(t.waits[rdy[c]].ch).closed == 0 || (*hchan)(t.waits[rdy[c]].ch).qcount > 0) {
		t.hist = 0
	}
	return rdy[c], false
}

// SelCase is one case of an instrumented select statement.
type SelCase interface {
	prep(w *waitCase)
	exec(s *Sched, t *thread, completed bool)
	realTry() bool
	real() reflect.SelectCase
	took(v reflect.Value, ok bool)
	give(p unsafe.Pointer)
	slot() unsafe.Pointer
}

//go:norace
func (c *RecvCase[T]) give(p unsafe.Pointer) { c.Val = *(*T)(p); c.Ok = true }

//go:norace
func (c *RecvCase[T]) slot() unsafe.Pointer { return nil }

//go:norace
func (c *SendCase[T]) give(p unsafe.Pointer) {}

//go:norace
func (c *SendCase[T]) slot() unsafe.Pointer { return unsafe.Pointer(&c.val) }

// RecvCase receives from a channel.
type RecvCase[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
}

// SendCase sends to a channel.
type SendCase[T any] struct {
	ch  chan<- T
	val T
}

//go:norace
func NewRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

//go:norace
func NewSend[T any](ch chan<- T) *SendCase[T] { return &SendCase[T]{ch: ch} }

//go:norace
func (c *SendCase[T]) Of(v T) *SendCase[T] { c.val = v; return c }

//go:norace
func chanPtr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func chanPtrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func (c *RecvCase[T]) prep(w *waitCase) {
	w.ch = chanPtr(c.ch)
	w.send = false
	w.c = c
}

//go:norace
func (c *SendCase[T]) prep(w *waitCase) {
	w.ch = chanPtrS(c.ch)
	w.send = true
	w.c = c
}

//go:norace
func (c *RecvCase[T]) exec(s *Sched, t *thread, completed bool) {
	p := chanPtr(c.ch)
	if completed {
		RaceAcquire(unsafe.Pointer(uintptr(p) + 8))
		return
	}
	h := (*hchan)(p)
	if h.unbuffered() && h.closed == 0 {
		o, k := s.partner(t, p, true)
		c.Val = *(*T)(o.waits[k].c.slot())
		c.Ok = true
		o.fired = k
		RaceAcquire(unsafe.Pointer(&o.ops))
		return
	}
	select { // buffered value or closing: ready, cannot block
	case v, ok := <-c.ch:
		c.Val, c.Ok = v, ok
	default:
		panic("vsched: receive was not ready")
	}
}

//go:norace
func (c *SendCase[T]) exec(s *Sched, t *thread, completed bool) {
	p := chanPtrS(c.ch)
	if completed {
		return
	}
	h := (*hchan)(p)
	if h.unbuffered() && h.closed == 0 {
		o, k := s.partner(t, p, false)
		RaceReleaseMerge(unsafe.Pointer(uintptr(p) + 8))
		o.waits[k].c.give(unsafe.Pointer(&c.val))
		o.fired = k
		return
	}
	select { // panics if the channel is closed, as it should
	case c.ch <- c.val:
	default:
		panic("vsched: send was not ready")
	}
}

//go:norace
func (c *RecvCase[T]) realTry() bool {
	select {
	case c.Val, c.Ok = <-c.ch:
		return true
	default:
		return false
	}
}

//go:norace
func (c *SendCase[T]) realTry() bool {
	select {
	case c.ch <- c.val:
		return true
	default:
		return false
	}
}

func (c *RecvCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *SendCase[T]) real() reflect.SelectCase {
	v := c.val
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&v).Elem()}
}

func (c *RecvCase[T]) took(v reflect.Value, ok bool) {
	c.Ok = ok
	if ok {
		reflect.ValueOf(&c.Val).Elem().Set(v)
	} else {
		var zero T
		c.Val = zero
	}
}

func (c *SendCase[T]) took(reflect.Value, bool) {}

// realSelect blocks outside of a scheduled execution.
func realSelect(cases []SelCase) int {
	rc := make([]reflect.SelectCase, len(cases))
	for i, c := range cases {
		rc[i] = c.real()
	}
	i, v, ok := reflect.Select(rc)
	cases[i].took(v, ok)
	return i
}

// Select performs an instrumented select statement and returns the index of the case taken (-1: default).
//
//go:norace
func Select(hasDefault bool, cases ...SelCase) int {
	s := active
	if s == nil {
		for i, c := range cases {
			if c.realTry() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		return realSelect(cases)
	}
	if s.dead {
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	t := s.cur
	for i, c := range cases {
		c.prep(&t.waits[i])
	}
	if t.pool {
		var pc [1]uintptr
		runtime.Callers(2, pc[:])
		t.hist = (uint64(t.code)*1099511628211 ^ uint64(pc[0])) | 1
	}
	RaceReleaseMerge(unsafe.Pointer(&t.ops))
	i, completed := s.wait(t, len(cases), hasDefault)
	if i < 0 {
		if !hasDefault {
			runtime.Goexit() // torn down
		}
		return -1
	}
	cases[i].exec(s, t, completed)
	return i
}

// Recv receives one value.
//
//go:norace
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 receives one value and whether the channel was open.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if active == nil {
		v, ok := <-ch
		return v, ok
	}
	c := NewRecv(ch)
	Select(false, c)
	return c.Val, c.Ok
}

// Do sends the value v.
//
//go:norace
func (c *SendCase[T]) Do(v T) {
	c.val = v
	if active == nil {
		c.ch <- v
		return
	}
	Select(false, c)
}

// Close closes a channel.
//
//go:norace
func Close[T any](ch chan<- T) {
	Op("close")
	close(ch)
}

// Helpers for instrumented go statements with arguments.
type G1[A any] struct{ f func(A) }
type G2[A, B any] struct{ f func(A, B) }
type G3[A, B, C any] struct{ f func(A, B, C) }
type G4[A, B, C, D any] struct{ f func(A, B, C, D) }

//go:norace
func NewG1[A any](f func(A)) G1[A] { return G1[A]{f} }

//go:norace
func NewG2[A, B any](f func(A, B)) G2[A, B] { return G2[A, B]{f} }

//go:norace
func NewG3[A, B, C any](f func(A, B, C)) G3[A, B, C] { return G3[A, B, C]{f} }

//go:norace
func NewG4[A, B, C, D any](f func(A, B, C, D)) G4[A, B, C, D] { return G4[A, B, C, D]{f} }

//go:norace
func (g G1[A]) Go(a A) { Go(func() { g.f(a) }) }

//go:norace
func (g G2[A, B]) Go(a A, b B) { Go(func() { g.f(a, b) }) }

//go:norace
func (g G3[A, B, C]) Go(a A, b B, c C) { Go(func() { g.f(a, b, c) }) }

//go:norace
func (g G4[A, B, C, D]) Go(a A, b B, c C, d D) { Go(func() { g.f(a, b, c, d) }) }

// Keys returns the keys of a map in order.
func Keys[K ~string, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}
