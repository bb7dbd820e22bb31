//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func raceErrors() int                   { return runtime.RaceErrors() }
