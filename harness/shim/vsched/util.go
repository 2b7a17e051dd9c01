package vsched

import "fmt"

func toString(p any) string { return fmt.Sprint(p) }

// Active reports whether a controlled run is in progress.
//
//go:norace
func Active() bool { return active }
