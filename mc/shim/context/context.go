// Package context puts deadlines on the virtual clock.
package context

import (
	real "context"
	"time"

	vtime "verif/mc/shim/time"
	"verif/mc/vs"
)

type deadlineCtx struct {
	real.Context
	at time.Time
}

func (d *deadlineCtx) Deadline() (time.Time, bool) { return d.at, true }
func (d *deadlineCtx) Err() error {
	if d.Context.Err() != nil && real.Cause(d.Context) == real.DeadlineExceeded {
		return real.DeadlineExceeded
	}
	return d.Context.Err()
}

func WithDeadline(parent real.Context, at time.Time) (real.Context, real.CancelFunc) {
	ctx, cancel := real.WithCancelCause(parent)
	t := vs.GoAfter("context deadline", int64(vtime.Until(at)), func() { cancel(real.DeadlineExceeded) })
	return &deadlineCtx{ctx, at}, func() { t.Stop(); cancel(real.Canceled) }
}

func WithTimeout(parent real.Context, d time.Duration) (real.Context, real.CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}

func WithDeadlineCause(parent real.Context, at time.Time, cause error) (real.Context, real.CancelFunc) {
	return WithDeadline(parent, at)
}

func WithTimeoutCause(parent real.Context, d time.Duration, cause error) (real.Context, real.CancelFunc) {
	return WithTimeout(parent, d)
}
