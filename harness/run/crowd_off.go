//go:build !race || verifnocrowd

package main

const crowdBuild = false
