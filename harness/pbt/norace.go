//go:build !race

package pbt

const raceEnabled = false
