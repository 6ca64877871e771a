//go:build !verifyield

package main

const yieldBuild = false
