//go:build race

package conccheck

import "runtime"

// races counts the data races that were found so far.
func races() int { return runtime.RaceErrors() }

const detecting = true
