// Package vsignal replaces package os/signal in instrumented code: signals are sent by the harness.
package vsignal

import (
	"context"
	"os"

	"kverif/vsched"
)

type sub struct {
	c      chan<- os.Signal
	sigs   []os.Signal
	cancel context.CancelFunc
}

var subs []*sub

// Reset forgets all subscriptions (between executions).
func Reset() { subs = nil }

func (s *sub) has(sig os.Signal) bool {
	if len(s.sigs) == 0 {
		return true
	}
	for _, x := range s.sigs {
		if x == sig {
			return true
		}
	}
	return false
}

// Heard reports whether anyone listens for a signal.
func Heard(sig os.Signal) bool {
	for _, s := range subs {
		if s.has(sig) {
			return true
		}
	}
	return false
}

// Send delivers a signal; it reports whether anyone listens.
func Send(sig os.Signal) (heard bool) {
	vsched.Op("signal")
	for _, s := range append([]*sub(nil), subs...) {
		if !s.has(sig) {
			continue
		}
		heard = true
		if s.cancel != nil {
			s.cancel()
			continue
		}
		vsched.Select(true, vsched.NewSend(s.c).Of(sig))
	}
	return
}

// Notify mirrors signal.Notify.
func Notify(c chan<- os.Signal, sigs ...os.Signal) { subs = append(subs, &sub{c: c, sigs: sigs}) }

// NotifyContext mirrors signal.NotifyContext.
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	s := &sub{sigs: sigs, cancel: cancel}
	subs = append(subs, s)
	return ctx, func() { drop(func(x *sub) bool { return x == s }); cancel() }
}

// Stop mirrors signal.Stop.
func Stop(c chan<- os.Signal) { drop(func(x *sub) bool { return x.c == c && x.cancel == nil }) }

// Ignore mirrors signal.Ignore.
func Ignore(...os.Signal) {}

func drop(f func(*sub) bool) {
	var keep []*sub
	for _, s := range subs {
		if !f(s) {
			keep = append(keep, s)
		}
	}
	subs = keep
}
