//go:build !verif

package main

// Fallback when the verif build tag doesn't compile: everything runs with the
// default batch size, and the evidence says so.
const hooked = false

func setBatch1(n int) {}
func setBatch2(n int) {}
