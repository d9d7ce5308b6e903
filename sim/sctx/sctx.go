// Package context stands in for the standard context package under simulation.
package context

import (
	"context"
	"time"

	"verif.local/sim/vsim"
)

type simCtx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDl    bool
	kids     []*simCtx
	timer    *vsim.Timer
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error            { vsim.Y(); return c.err }

type selfKey struct{}

func (c *simCtx) Value(k any) any {
	if _, ok := k.(selfKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	vsim.CloseNow(c.done)
	c.timer.Stop()
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
}

func mk(parent Context) *simCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &simCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(selfKey{}).(*simCtx); ok && p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := mk(parent)
	return c, func() { vsim.Y(); c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := mk(parent)
	return c, func(cause error) { vsim.Y(); c.cancel(Canceled, cause) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return withDur(parent, d, nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return withDur(parent, d, cause)
}

func now() time.Time {
	if s := vsim.Active(); s != nil {
		return s.NowMono()
	}
	return time.Now()
}

func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	return withDur(parent, t.Sub(now()), nil)
}

func WithDeadlineCause(parent Context, t time.Time, cause error) (Context, CancelFunc) {
	return withDur(parent, t.Sub(now()), cause)
}

func withDur(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	c := mk(parent)
	c.deadline, c.hasDl = now().Add(d), true
	if s := vsim.Active(); s != nil && c.err == nil {
		if d <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.timer = s.After(d, func() { s.Count("timer.context_timeout"); c.cancel(DeadlineExceeded, cause) })
		}
	}
	return c, func() { vsim.Y(); c.cancel(Canceled, nil) }
}

func Cause(c Context) error {
	if p, ok := c.Value(selfKey{}).(*simCtx); ok && p != nil {
		return p.cause
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	st := vsim.NewFlag()
	vsim.GoLib("context.AfterFunc", func() {
		vsim.Recv(ctx.Done())
		if st.Set() {
			f()
		}
	})
	return func() bool { return st.Set() }
}

func WithValue(parent Context, k, v any) Context { return context.WithValue(parent, k, v) }
