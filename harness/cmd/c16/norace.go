//go:build !race

package main

const raceEnabled = false

func raceErrors() int { return 0 }
