//go:build nomax

package main

import "github.com/henderiw/idxtable/pkg/idxtable"

const hasMax = false

func newTableMax(max uint64) idxtable.Table[any] { panic("no constructor by the highest id") }
