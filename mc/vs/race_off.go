//go:build !race

package vs

import "unsafe"

const RaceEnabled = false

func raceAcquire(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceDisable()                      {}
func raceEnable()                       {}
func raceErrors() int                   { return 0 }
