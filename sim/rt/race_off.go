//go:build !race

package simrt

// RaceEnabled reports whether this build carries the happens-before detector.
const RaceEnabled = false

func hideOn()         {}
func hideOff()        {}
func raceErrors() int { return 0 }
