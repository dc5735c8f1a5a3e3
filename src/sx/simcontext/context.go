// Package simcontext is package context on the simulated scheduler and clock.
package simcontext

import (
	"context"
	"time"

	"dst/sim"
	"dst/sx/simtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

func WithValue(parent Context, key, val any) Context { return context.WithValue(parent, key, val) }

type ctx struct {
	Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	timer    *simtime.Timer
	after    []func()
	kids     []*ctx
}

type self struct{}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	sim.SyncPoint()
	return c.err
}

func (c *ctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *ctx) Value(key any) any {
	if key == (self{}) {
		return c
	}
	return c.Context.Value(key)
}

func (c *ctx) cancel(err, cause error) {
	sim.NoPreempt(func() {
		if c.err != nil {
			return
		}
		if cause == nil {
			cause = err
		}
		c.err, c.cause = err, cause
		if c.timer != nil {
			c.timer.Stop()
		}
		sim.CloseCh(c.done)
		for _, f := range c.after {
			sim.GoQuiet("context", f)
		}
		for _, k := range c.kids {
			k.cancel(err, cause)
		}
	})
}

func derive(parent Context) *ctx {
	c := &ctx{Context: parent, done: sim.Reg(make(chan struct{}))}
	if p, ok := parent.Value(self{}).(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := derive(parent)
	return c, func() { sim.SyncPoint(); c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := derive(parent)
	return c, func(cause error) { sim.SyncPoint(); c.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithTimeout(parent, simtime.Until(d))
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	c := derive(parent)
	c.deadline = simtime.Now().Add(d)
	if p, ok := parent.Deadline(); ok && p.Before(c.deadline) {
		c.deadline = p
	} else if c.err == nil {
		c.timer = simtime.AfterFunc(d, func() { c.cancel(DeadlineExceeded, nil) })
	}
	return c, func() { sim.SyncPoint(); c.cancel(Canceled, nil) }
}

func WithoutCancel(parent Context) Context { return context.WithoutCancel(parent) }

func Cause(x Context) error {
	if c, ok := x.Value(self{}).(*ctx); ok {
		return c.cause
	}
	return x.Err()
}

func AfterFunc(x Context, f func()) (stop func() bool) {
	c, ok := x.Value(self{}).(*ctx)
	if !ok {
		return func() bool { return true }
	}
	state := 0
	g := func() {
		if state == 0 {
			state = 1
			f()
		}
	}
	if c.err != nil {
		sim.GoQuiet("context", g)
	} else {
		c.after = append(c.after, g)
	}
	return func() bool {
		if state == 0 {
			state = 2
			return true
		}
		return false
	}
}
