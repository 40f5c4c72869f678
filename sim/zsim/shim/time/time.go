// Package time is the simulated time package.
package time

import (
	"time"
	"zsim/core"
)

// Local is the simulated process's local timezone.
var Local = time.UTC

func init() {
	core.OnProcStart(func(p *core.Proc) {
		if p.Loc != nil {
			Local = p.Loc
		}
	})
}

func Now() time.Time                  { return time.Unix(0, core.NowNS()).In(Local) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { core.Sleep(d) }

// Timer is a simulated timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	t  *core.Timer
	fn func()
}

func (t *Timer) fire() {
	if t.fn != nil {
		if p := core.Cur(); p != nil {
			p.Spawn("timer", t.fn)
		}
		return
	}
	select {
	case t.c <- time.Unix(0, core.W.Wall+core.W.Mono).In(Local):
	default:
	}
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.t = core.W.AddTimer(d, t.fire)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{fn: f}
	t.t = core.W.AddTimer(d, t.fire)
	return t
}
func (t *Timer) Stop() bool { return t.t.Stop() }
func (t *Timer) Reset(d time.Duration) bool {
	was := t.t.Stop()
	select {
	case <-t.c:
	default:
	}
	t.t = core.W.AddTimer(d, t.fire)
	return was
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is a simulated ticker.
type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	d  time.Duration
	t  *core.Timer
	on bool
}

func (t *Ticker) arm() {
	t.t = core.W.AddTimer(t.d, func() {
		if !t.on {
			return
		}
		select {
		case t.c <- time.Unix(0, core.W.Wall+core.W.Mono).In(Local):
		default:
		}
		t.arm()
	})
}
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d, on: true}
	t.arm()
	return t
}
func (t *Ticker) Stop()                 { t.on = false; t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.t.Stop(); t.d = d; t.on = true; t.arm() }
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
func LoadLocation(n string) (*time.Location, error) {
	if n == "Local" {
		return Local, nil
	}
	return time.LoadLocation(n)
}
