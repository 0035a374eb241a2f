// Package time runs on the simulator's clock.
package time

import (
	orig "time"

	"verifsim.local/hook"
)

var base = orig.Date(2024, 1, 1, 0, 0, 0, 0, orig.UTC)

func Now() orig.Time {
	if !hook.Active() {
		return base.Add(orig.Duration(hook.IdleClock()) * orig.Microsecond)
	}
	return base.Add(orig.Duration(hook.Clock()) * orig.Microsecond)
}
func Since(t orig.Time) orig.Duration { return Now().Sub(t) }
func Until(t orig.Time) orig.Duration { return t.Sub(Now()) }

//go:norace
func Sleep(d orig.Duration) {
	if !hook.Active() {
		hook.IdleSleep(int64(d / orig.Microsecond))
		orig.Sleep(d)
		return
	}
	hook.Y(32762)
	lapse(d)
}

//go:norace
func lapse(d orig.Duration) {
	hook.Lapse(int64((d + orig.Microsecond - 1) / orig.Microsecond))
}

// Timer is a task that ends its wait at some moment.
type Timer struct {
	C    <-chan orig.Time
	c    chan orig.Time
	f    func()
	gen  int
	live bool
	real *orig.Timer
}

//go:norace
func (t *Timer) start(d orig.Duration) {
	t.gen++
	t.live = true
	gen := t.gen
	hook.Go(func() {
		hook.Daemon()
		lapse(d)
		if !t.due(gen) {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

//go:norace
func (t *Timer) due(gen int) bool {
	due := t.live && t.gen == gen
	if due {
		t.live = false
	}
	return due
}

//go:norace
func NewTimer(d orig.Duration) *Timer {
	if !hook.Active() {
		r := orig.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	t := &Timer{c: make(chan orig.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

//go:norace
func AfterFunc(d orig.Duration, f func()) *Timer {
	if !hook.Active() {
		return &Timer{real: orig.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.start(d)
	return t
}

//go:norace
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	was := t.live
	t.live = false
	t.drain()
	return was
}

//go:norace
func (t *Timer) Reset(d orig.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	was := t.live
	t.drain()
	t.start(d)
	return was
}

//go:norace
func (t *Timer) drain() {
	select {
	case <-t.c:
	default:
	}
}

func After(d orig.Duration) <-chan orig.Time { return NewTimer(d).C }

// Ticker is a task that ticks.
type Ticker struct {
	C    <-chan orig.Time
	c    chan orig.Time
	gen  int
	real *orig.Ticker
}

//go:norace
func NewTicker(d orig.Duration) *Ticker {
	if !hook.Active() {
		r := orig.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan orig.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

//go:norace
func (t *Ticker) start(d orig.Duration) {
	t.gen++
	gen := t.gen
	hook.Go(func() {
		hook.Daemon()
		for t.on(gen) && !hook.Dead() {
			lapse(d)
			if t.on(gen) {
				select {
				case t.c <- Now():
				default:
				}
			}
		}
	})
}

//go:norace
func (t *Ticker) on(gen int) bool { return t.gen == gen }

//go:norace
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.gen++
}

//go:norace
func (t *Ticker) Reset(d orig.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.gen++
	t.start(d)
}

func Tick(d orig.Duration) <-chan orig.Time { return NewTicker(d).C }
