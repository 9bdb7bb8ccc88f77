// Package vtime stands for package time in instrumented code.
package vtime

import (
	"time"

	"verifharness/vkrt"
	"verifharness/vktime"
)

// Types of package time.
type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
	Timer      = vktime.Timer
	Ticker     = vktime.Ticker
)

// Constants of package time.
const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
)

// Variables of package time.
var (
	UTC   = time.UTC
	Local = time.Local
)

// Now is scheduled time.
func Now() Time { return vkrt.Now() }

// Since is scheduled time.
func Since(t Time) Duration { return vkrt.Now().Sub(t) }

// Until is scheduled time.
func Until(t Time) Duration { return t.Sub(vkrt.Now()) }

// Sleep is scheduled.
func Sleep(d Duration) { vkrt.Sleep(d) }

// After is scheduled.
func After(d Duration) <-chan Time { return vktime.After(d) }

// AfterFunc is scheduled.
func AfterFunc(d Duration, f func()) *Timer { return vktime.AfterFunc(d, f) }

// NewTimer is scheduled.
func NewTimer(d Duration) *Timer { return vktime.NewTimer(d) }

// NewTicker is scheduled.
func NewTicker(d Duration) *Ticker { return vktime.NewTicker(d) }

// Tick is scheduled.
func Tick(d Duration) <-chan Time { return vktime.Tick(d) }

// UnixMilli is time.UnixMilli.
func UnixMilli(ms int64) Time { return time.UnixMilli(ms) }

// Unix is time.Unix.
func Unix(s, ns int64) Time { return time.Unix(s, ns) }

// Date is time.Date.
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}

// ParseDuration is time.ParseDuration.
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

// Parse is time.Parse.
func Parse(l, v string) (Time, error) { return time.Parse(l, v) }
