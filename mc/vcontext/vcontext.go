// Package vcontext replaces package context in instrumented code. AfterFunc runs its function
// in a managed thread, WithTimeout and WithDeadline go by virtual time.
package vcontext

import (
	"context"
	"time"

	"kverif/vsched"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded

	Background        = context.Background
	TODO              = context.TODO
	WithCancel        = context.WithCancel
	WithCancelCause   = context.WithCancelCause
	WithTimeoutCause  = context.WithTimeoutCause
	WithDeadlineCause = context.WithDeadlineCause
	WithValue         = context.WithValue
	WithoutCancel     = context.WithoutCancel
	Cause             = context.Cause
)

// AfterFunc mirrors context.AfterFunc.
//
//go:norace
func AfterFunc(ctx Context, f func()) func() bool {
	if !vsched.Active() {
		return context.AfterFunc(ctx, f)
	}
	var stopped, started bool
	vsched.GoQuiet("afterfunc", func() {
		vsched.Block("afterfunc", func() bool { return stopped || ctx.Err() != nil })
		if stopped {
			return
		}
		started = true
		f()
	})
	return func() bool {
		vsched.Op("afterfunc.stop")
		if stopped || started || ctx.Err() != nil {
			return false
		}
		stopped = true
		return true
	}
}

// timed is a context with a deadline in virtual time.
type timed struct {
	context.Context
	at      time.Time
	expired *bool
}

//go:norace
func (t *timed) Deadline() (time.Time, bool) { return t.at, true }

//go:norace
func (t *timed) Err() error {
	err := t.Context.Err()
	if err != nil && *t.expired {
		return context.DeadlineExceeded
	}
	return err
}

// WithTimeout mirrors context.WithTimeout.
//
//go:norace
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	if !vsched.Active() {
		return context.WithTimeout(parent, d)
	}
	at := time.Unix(0, vsched.NowNanos()).Add(d)
	if p, ok := parent.Deadline(); ok && p.Before(at) {
		return context.WithCancel(parent)
	}
	ctx, cancel := context.WithCancelCause(parent)
	t := &timed{ctx, at, new(bool)}
	timer := vsched.AddTimer(d, 0, func(int64) {
		if ctx.Err() == nil {
			*t.expired = true
			cancel(context.DeadlineExceeded)
		}
	})
	done := false
	return t, func() {
		if !done {
			done = true
			if vsched.Active() && ctx.Err() == nil {
				vsched.StopTimer(timer)
			}
		}
		cancel(context.Canceled)
	}
}

// WithDeadline mirrors context.WithDeadline.
//
//go:norace
func WithDeadline(parent Context, at time.Time) (Context, CancelFunc) {
	if !vsched.Active() {
		return context.WithDeadline(parent, at)
	}
	return WithTimeout(parent, at.Sub(time.Unix(0, vsched.NowNanos())))
}
