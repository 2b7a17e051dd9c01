// Vcrace holds the checks that run on code instrumented by xform, built with -race.
// It runs inside package testing, which synctest needs.
package main

import (
	"os"
	"testing"

	"verif/mc"
	"verif/propsrace"
)

func main() {
	all := func(_, _ string) (bool, error) { return true, nil }
	testing.Main(all, []testing.InternalTest{{Name: "mc", F: func(t *testing.T) {
		propsrace.TT = t
		mc.Main(propsrace.All)
		os.Exit(0)
	}}}, nil, nil)
}
