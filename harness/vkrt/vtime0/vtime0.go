// Package vtime0 is what the timers of vktime need of vtime.
package vtime0

import (
	"time"

	"verifharness/vkrt"
)

// Types of package time.
type (
	Duration = time.Duration
	Time     = time.Time
)

// Now is scheduled time.
func Now() Time { return vkrt.Now() }

// Sleep is scheduled.
func Sleep(d Duration) { vkrt.Sleep(d) }
