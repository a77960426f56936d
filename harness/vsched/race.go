//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// The race build: the code under test and the standard library are compiled
// with the race detector, the harness is not. The scheduler's own hand-overs
// are hidden from the detector, and every synchronisation operation of the
// code under test adds the happens-before edge it has in Go's memory model, so
// that an execution reports a race exactly when two accesses are unordered,
// however the scheduler happened to order them.

const RaceOn = true

func hide()                    { runtime.RaceDisable() }
func show()                    { runtime.RaceEnable() }
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int          { return runtime.RaceErrors() }
