//go:build !race

package vsched

import "unsafe"

const RaceOn = false

func hide()                    {}
func show()                    {}
func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}
func RaceErrors() int          { return 0 }
