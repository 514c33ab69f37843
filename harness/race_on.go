//go:build race

package main

import (
	"runtime"
	"unsafe"
)

const raceMode = true

func raceRelease(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func raceAcquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceErrors() int     { return runtime.RaceErrors() }
