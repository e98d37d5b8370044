//go:build !shim

package main

func shimCounters() map[string]int64 { return nil }
