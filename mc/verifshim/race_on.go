//go:build race

package verifshim

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceCount is the number of races reported so far.
func RaceCount() int { return runtime.RaceErrors() }

// RaceRelease and RaceAcquire give the race detector the edge between putting an object
// into a pool and getting it out again.
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceAcquire is the other end of the edge.
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
