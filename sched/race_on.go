//go:build race

package sched

import "runtime"

// RaceBuild tells whether the race detector watches this build.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
