//go:build race

package pbt

const raceEnabled = true
