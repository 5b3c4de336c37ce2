package vtime

import (
	"time"

	"kverif/vsched"
)

// Now is virtual time (whether or not an execution is being scheduled).
//
//go:norace
func Now() time.Time { return time.Unix(0, vsched.NowNanos()) }

//go:norace
func Since(t time.Time) time.Duration { return Now().Sub(t) }

//go:norace
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep is virtual under the scheduler and real otherwise.
//
//go:norace
func Sleep(d time.Duration) { vsched.Sleep(d) }

// Timer mirrors time.Timer.
type Timer struct {
	C    <-chan time.Time
	ch   chan time.Time
	h    int
	f    func()
	real *time.Timer
}

//go:norace
func fireCh(ch chan time.Time) func(int64) {
	return func(int64) {
		select {
		case ch <- Now():
		default:
		}
	}
}

//go:norace
func NewTimer(d time.Duration) *Timer {
	if !vsched.Active() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	ch := make(chan time.Time, 1)
	return &Timer{C: ch, ch: ch, h: vsched.AddTimer(d, 0, fireCh(ch))}
}

//go:norace
func AfterFunc(d time.Duration, f func()) *Timer {
	if !vsched.Active() {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.h = vsched.AddTimer(d, 0, func(int64) { vsched.SpawnFromTimer(f) })
	return t
}

//go:norace
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	vsched.Op("timer.stop")
	return vsched.StopTimer(t.h)
}

//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	vsched.Op("timer.reset")
	was := vsched.StopTimer(t.h)
	if t.f != nil {
		t.h = vsched.AddTimer(d, 0, func(int64) { vsched.SpawnFromTimer(t.f) })
	} else {
		select {
		case <-t.ch:
		default:
		}
		t.h = vsched.AddTimer(d, 0, fireCh(t.ch))
	}
	return was
}

// Ticker mirrors time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	ch   chan time.Time
	h    int
	real *time.Ticker
}

//go:norace
func NewTicker(d time.Duration) *Ticker {
	if !vsched.Active() {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	ch := make(chan time.Time, 1)
	return &Ticker{C: ch, ch: ch, h: vsched.AddTimer(d, d, fireCh(ch))}
}

//go:norace
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	vsched.StopTimer(t.h)
}

//go:norace
func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	vsched.StopTimer(t.h)
	t.h = vsched.AddTimer(d, d, fireCh(t.ch))
}

//go:norace
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

//go:norace
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
