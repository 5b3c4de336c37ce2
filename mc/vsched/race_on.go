//go:build race

package vsched

import (
	"os"
	"runtime"
	"strconv"
	"strings"
	"unsafe"
)

// RaceMode reports whether this binary was built with the race detector.
const RaceMode = true

// Hand-offs between threads go through real channels; they must not look like
// happens-before edges to the race detector, so sync events are ignored there.
//
//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func RaceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func RaceErrors() int { return runtime.RaceErrors() }

var raceSeen int

// RaceReport returns the next report of the race detector that concerns the code under test, "" if
// there is none. A race counts when the innermost frame outside the standard library of one of
// the two accesses is in github.com/kacheio/kache and neither is in the scheduler or its sync primitives:
// harness code is serialised by the scheduler and may look at its own state without synchronisation, and
// the conditions threads wait for are evaluated by whichever thread runs.
//
//go:norace
func RaceReport() string {
	p := os.Getenv("KV_RACELOG")
	if p == "" {
		return ""
	}
	b, err := os.ReadFile(p + "." + strconv.Itoa(os.Getpid()))
	if err != nil || len(b) <= raceSeen {
		return ""
	}
	text := string(b[raceSeen:])
	raceSeen = len(b)
	for _, r := range strings.Split(text, "==================") {
		if strings.Contains(r, "DATA RACE") && raceCounts(r) {
			return strings.TrimSpace(r)
		}
	}
	return ""
}

//go:norace
func raceCounts(r string) bool {
	counts := false
	for _, part := range strings.Split(r, "\n\n") {
		first := strings.TrimSpace(part)
		first = strings.TrimPrefix(first, "WARNING: DATA RACE\n")
		if !strings.Contains(strings.SplitN(first, "\n", 2)[0], " at 0x") {
			continue // the goroutine creation stacks
		}
		for _, l := range strings.Split(first, "\n")[1:] {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/kacheio/kache/") {
				counts = true
				break
			}
			if strings.HasPrefix(l, "kverif/v") {
				return false
			}
			if strings.HasPrefix(l, "kverif/") || strings.HasPrefix(l, "main.") {
				break
			}
		}
	}
	return counts
}
