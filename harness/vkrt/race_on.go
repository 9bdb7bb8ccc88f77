//go:build race

package vkrt

import (
	"runtime"
	"unsafe"
)

const raceBuild = true

func raceOff()                 { runtime.RaceDisable() }
func raceOn()                  { runtime.RaceEnable() }
func raceAcq(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRel(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
