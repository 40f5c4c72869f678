// Package context is context with deadlines on the simulated clock.
package context

import (
	"context"
	"time"
	"zsim/core"
)

type deadlineCtx struct {
	context.Context
	at  time.Time
	hit *bool
}

func (d deadlineCtx) Deadline() (time.Time, bool) { return d.at, true }
func (d deadlineCtx) Err() error {
	if e := d.Context.Err(); e != nil {
		if *d.hit {
			return context.DeadlineExceeded
		}
		return e
	}
	return nil
}

func withTimer(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	hit := new(bool)
	at := time.Unix(0, core.W.Wall+core.W.Mono).Add(d)
	if pd, ok := parent.Deadline(); ok && pd.Before(at) {
		at = pd
	}
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	t := core.W.AddTimer(d, func() {
		if ctx.Err() == nil {
			*hit = true
			cancel(cause)
		}
	})
	return deadlineCtx{ctx, at, hit}, func() { core.Yield(); t.Stop(); cancel(nil); core.Yield() }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return withTimer(parent, d, nil)
}
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return withTimer(parent, d, cause)
}
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return withTimer(parent, at.Sub(time.Unix(0, core.W.Wall+core.W.Mono)), nil)
}
func WithDeadlineCause(parent context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	return withTimer(parent, at.Sub(time.Unix(0, core.W.Wall+core.W.Mono)), cause)
}
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	return ctx, func() { core.Yield(); cancel(); core.Yield() }
}
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	stopped, ran := false, false
	core.Cur().Spawn("ctxafter", func() {
		core.Block(func() bool { return stopped || ctx.Err() != nil }, false)
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool { was := !stopped && !ran; stopped = true; return was }
}
