//go:build !race

package sched

// RaceBuild tells whether the race detector watches this build.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}
