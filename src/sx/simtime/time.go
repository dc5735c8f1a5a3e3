// Package simtime is package time on the simulated clock.
package simtime

import (
	"time"

	"dst/sim"
)

func now() int64 {
	if sim.S == nil {
		return 0
	}
	return sim.S.Now
}

var epoch = time.Unix(1_700_000_000, 0)

func Now() time.Time                  { return epoch.Add(time.Duration(now())) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { sim.Sleep(int64(d)) }

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *sim.Timer
}

func (t *Timer) start(d time.Duration) {
	if sim.S == nil {
		return
	}
	t.t = sim.S.After(int64(d), func() {
		t.t = nil
		if t.f != nil {
			sim.GoQuiet("timer", t.f)
			return
		}
		sim.Push(t.c, Now())
	})
}

func NewTimer(d time.Duration) *Timer {
	c := sim.Reg(make(chan time.Time, 1))
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.t == nil || sim.S == nil {
		return false
	}
	ok := t.t.Cancel()
	t.t = nil
	return ok
}

func (t *Timer) Reset(d time.Duration) bool {
	ok := t.Stop()
	t.start(d)
	return ok
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *sim.Timer
	d time.Duration
	n int
}

func NewTicker(d time.Duration) *Ticker {
	c := sim.Reg(make(chan time.Time, 1))
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	if sim.S == nil {
		return
	}
	t.t = sim.S.After(int64(t.d), func() {
		sim.Push(t.c, Now())
		t.n++
		if t.n < 10000 {
			t.arm()
		}
	})
	t.t.Background = true
}

func (t *Ticker) Stop() {
	if t.t != nil && sim.S != nil {
		t.t.Cancel()
		t.t = nil
	}
}

func (t *Ticker) Reset(d time.Duration) { t.Stop(); t.d = d; t.arm() }

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
