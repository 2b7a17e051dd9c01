//go:build !race

// Package vrace hides scheduler handoffs from the race detector.
package vrace

const On = false

func Disable() {}
func Enable()  {}
