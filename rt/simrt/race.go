//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether the happens-before monitor is compiled in.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// Acquire, Release and ReleaseMerge tell the monitor about simulated locks.
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors returns the number of conflicts seen so far.
func RaceErrors() int { return runtime.RaceErrors() }
