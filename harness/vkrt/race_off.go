//go:build !race

package vkrt

import "unsafe"

const raceBuild = false

func raceOff()               {}
func raceOn()                {}
func raceAcq(unsafe.Pointer) {}
func raceRel(unsafe.Pointer) {}
