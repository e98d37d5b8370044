//go:build noapi16

package main

func arith16(r *Run) {}
