//go:build !race

package verifshim

import "unsafe"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}

// RaceCount is the number of races reported so far.
func RaceCount() int { return 0 }

// RaceRelease does nothing without the race detector.
func RaceRelease(p unsafe.Pointer) {}

// RaceAcquire does nothing without the race detector.
func RaceAcquire(p unsafe.Pointer) {}
