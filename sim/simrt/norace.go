//go:build !race

package simrt

const Race = false

func raceDisable()    {}
func raceEnable()     {}
func RaceErrors() int { return 0 }
