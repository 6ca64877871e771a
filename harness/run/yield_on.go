//go:build verifyield

package main

const yieldBuild = true // built with scheduling points, see ../yield
