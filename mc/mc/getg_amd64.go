package main

// getg identifies the running goroutine.
func getg() uintptr

func goid() uint64 { return uint64(getg()) }
