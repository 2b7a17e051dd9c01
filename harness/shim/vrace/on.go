//go:build race

// Package vrace hides scheduler handoffs from the race detector.
package vrace

import "runtime"

const On = true

func Disable() { runtime.RaceDisable() }
func Enable()  { runtime.RaceEnable() }
