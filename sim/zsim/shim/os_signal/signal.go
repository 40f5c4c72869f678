// Package signal is the simulated os/signal.
package signal

import (
	"context"
	"os"
	"syscall"
	"zsim/core"
)

func split(sigs []os.Signal) (bool, []syscall.Signal) {
	var out []syscall.Signal
	for _, s := range sigs {
		if x, ok := s.(syscall.Signal); ok {
			out = append(out, x)
		}
	}
	return len(sigs) == 0, out
}

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	all, l := split(sigs)
	core.SigNotify(c, all, l, func(s syscall.Signal) {
		select {
		case c <- s:
		default:
		}
	})
}
func Stop(c chan<- os.Signal)    { core.SigStop(c) }
func Reset(sigs ...os.Signal)    { core.SigReset() }
func Ignore(sigs ...os.Signal)   { all, l := split(sigs); core.SigIgnore(all, l) }
func Ignored(sig os.Signal) bool { return false }

type sigErr string

func (e sigErr) Error() string { return string(e) + " signal received" }

// NotifyContext behaves like the real one, including its helper thread.
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	if ctx.Err() == nil && !core.Dead() {
		core.Cur().Spawn("notifyctx", func() {
			r := core.RecvCase((<-chan os.Signal)(ch))
			d := core.RecvCase(ctx.Done())
			if core.Select(false, r, d) == 0 {
				cancel(sigErr(r.Val.String()))
			}
		})
	}
	return ctx, func() {
		core.Yield()
		cancel(nil)
		Stop(ch)
		core.Yield()
	}
}
