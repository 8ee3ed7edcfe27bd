//go:build race

package simrt

import "runtime"

// RaceEnabled reports whether this build carries the happens-before detector.
const RaceEnabled = true

// The simulator's own hand-offs must stay invisible to the happens-before
// detector: otherwise every context switch would order the tasks' accesses and
// no unsynchronised access in the library could ever be seen.
func hideOn()         { runtime.RaceDisable() }
func hideOff()        { runtime.RaceEnable() }
func raceErrors() int { return runtime.RaceErrors() }
