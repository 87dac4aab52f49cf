//go:build !race

package vsched

func raceDisable() {}
func raceEnable()  {}

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return 0 }

// Race reports whether the race detector is on.
const Race = false
