//go:build !race

package vsched

import "unsafe"

// RaceMode reports whether this binary was built with the race detector.
const RaceMode = false

//go:norace
func raceDisable() {}

//go:norace
func raceEnable() {}

//go:norace
func RaceAcquire(p unsafe.Pointer) {}

//go:norace
func RaceRelease(p unsafe.Pointer) {}

//go:norace
func RaceReleaseMerge(p unsafe.Pointer) {}

//go:norace
func RaceErrors() int { return 0 }

//go:norace
func RaceReport() string { return "" }
