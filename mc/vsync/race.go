//go:build race

package vsync

import "runtime"

// hide makes what the scheduler does invisible to the race detector, so that handing over control from one thread to
// another doesn't order what they do
func hide()   { runtime.RaceDisable() }
func unhide() { runtime.RaceEnable() }

// Races is the number of data races that have been reported
func Races() int { return runtime.RaceErrors() }
