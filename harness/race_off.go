//go:build !race

package main

const raceMode = false

func raceRelease(p *byte) {}
func raceAcquire(p *byte) {}
func raceErrors() int     { return 0 }
