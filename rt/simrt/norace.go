//go:build !race

package simrt

import "unsafe"

// RaceBuild reports whether the happens-before monitor is compiled in.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}

// Acquire, Release and ReleaseMerge do nothing without the monitor.
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}

// RaceErrors returns the number of conflicts seen so far.
func RaceErrors() int { return 0 }
