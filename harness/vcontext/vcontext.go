// Package vcontext stands in for package context in instrumented code, with
// deadlines on the clock of vtime.
package vcontext

import (
	"context"
	"time"

	"verifharness/vtime"
)

func WithTimeout(c context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(c, vtime.Shrink(d))
}

func WithTimeoutCause(c context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return context.WithTimeoutCause(c, vtime.Shrink(d), cause)
}

func WithDeadline(c context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return context.WithDeadline(c, vtime.Real(t))
}

func WithDeadlineCause(c context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	return context.WithDeadlineCause(c, vtime.Real(t), cause)
}

var (
	AfterFunc        = context.AfterFunc
	Background       = context.Background
	Canceled         = context.Canceled
	Cause            = context.Cause
	DeadlineExceeded = context.DeadlineExceeded
	TODO             = context.TODO
	WithCancel       = context.WithCancel
	WithCancelCause  = context.WithCancelCause
	WithValue        = context.WithValue
	WithoutCancel    = context.WithoutCancel
)

type (
	CancelCauseFunc = context.CancelCauseFunc
	CancelFunc      = context.CancelFunc
	Context         = context.Context
)
