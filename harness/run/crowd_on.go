//go:build race && !verifnocrowd

package main

const crowdBuild = true // the race detector watches, see crowd
