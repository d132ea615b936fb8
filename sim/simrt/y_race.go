//go:build race

package verifsimrt

import (
	"runtime"
	"unsafe"
)

// Y is the yield point placed before statements. Not inlined: its accesses to
// the simulator's own state must not be instrumented.
//
//go:noinline
//go:norace
func Y() {
	yc--
	if yc <= 0 {
		ySlow()
	}
}

func raceOff()             { runtime.RaceDisable() }
func raceOn()              { runtime.RaceEnable() }
func raceAcq(p *byte)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRel(p *byte)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func raceRelMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func raceReadRange(p []byte) {
	if len(p) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&p[0]), len(p))
	}
}
func raceWriteRange(p []byte) {
	if len(p) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&p[0]), len(p))
	}
}
