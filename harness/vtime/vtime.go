// Package vtime stands in for package time in instrumented code: the same names,
// but a clock that runs Scale times as fast, so that what the code does after
// seconds or hours happens within a short run.
package vtime

import (
	"time"
)

// Scale is set before the code under test runs.
var Scale time.Duration = 1

var start = time.Now()

// Set changes the scale. The checks give every case number its own, so that a
// process, which runs the numbers of one remainder, has one.
func Set(scale time.Duration) {
	if Scale != scale {
		Scale = scale
	}
}

func shrink(d time.Duration) time.Duration {
	if Scale <= 1 || d <= 0 {
		return d
	}
	return max(d/Scale, 1)
}

func Now() time.Time {
	n := time.Now()
	if Scale <= 1 {
		return n
	}
	return n.Add((Scale - 1) * n.Sub(start))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { time.Sleep(shrink(d)) }

// Real is the wall-clock time at which the scaled clock will show t.
func Real(t time.Time) time.Time { return time.Now().Add(shrink(Until(t))) }

// Shrink is the real length of a scaled duration.
func Shrink(d time.Duration) time.Duration { return shrink(d) }

type Timer struct {
	C <-chan time.Time
	t *time.Timer
}

func (t *Timer) Stop() bool                 { return t.t.Stop() }
func (t *Timer) Reset(d time.Duration) bool { return t.t.Reset(shrink(d)) }

func NewTimer(d time.Duration) *Timer {
	t := time.NewTimer(shrink(d))
	return &Timer{t.C, t}
}

func AfterFunc(d time.Duration, f func()) *Timer {
	return &Timer{nil, time.AfterFunc(shrink(d), f)}
}

func After(d time.Duration) <-chan time.Time { return time.After(shrink(d)) }

type Ticker struct {
	C <-chan time.Time
	t *time.Ticker
}

func (t *Ticker) Stop()                 { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.t.Reset(tick(d)) }

// tick keeps a scaled ticker from doing nothing but tick.
func tick(d time.Duration) time.Duration {
	if s := shrink(d); s < d {
		return max(s, min(d, 50*time.Microsecond))
	}
	return d
}

func NewTicker(d time.Duration) *Ticker {
	t := time.NewTicker(tick(d))
	return &Ticker{t.C, t}
}

func Tick(d time.Duration) <-chan time.Time { return time.Tick(tick(d)) }

const (
	ANSIC       = time.ANSIC
	April       = time.April
	August      = time.August
	DateOnly    = time.DateOnly
	DateTime    = time.DateTime
	December    = time.December
	February    = time.February
	Friday      = time.Friday
	Hour        = time.Hour
	January     = time.January
	July        = time.July
	June        = time.June
	Kitchen     = time.Kitchen
	Layout      = time.Layout
	March       = time.March
	May         = time.May
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Minute      = time.Minute
	Monday      = time.Monday
	Nanosecond  = time.Nanosecond
	November    = time.November
	October     = time.October
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RubyDate    = time.RubyDate
	Saturday    = time.Saturday
	Second      = time.Second
	September   = time.September
	Stamp       = time.Stamp
	StampMicro  = time.StampMicro
	StampMilli  = time.StampMilli
	StampNano   = time.StampNano
	Sunday      = time.Sunday
	Thursday    = time.Thursday
	TimeOnly    = time.TimeOnly
	Tuesday     = time.Tuesday
	UnixDate    = time.UnixDate
	Wednesday   = time.Wednesday
)

var (
	Date                   = time.Date
	FixedZone              = time.FixedZone
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
	Local                  = time.Local
	Parse                  = time.Parse
	ParseDuration          = time.ParseDuration
	ParseInLocation        = time.ParseInLocation
	UTC                    = time.UTC
	Unix                   = time.Unix
	UnixMicro              = time.UnixMicro
	UnixMilli              = time.UnixMilli
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Time       = time.Time
	Weekday    = time.Weekday
)
