//go:build race

package main

import "runtime"

const raceBuild = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

func raceErrors() int { return runtime.RaceErrors() }
