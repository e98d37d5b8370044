//go:build !nomax

package main

import "github.com/henderiw/idxtable/pkg/idxtable"

const hasMax = true

func newTableMax(max uint64) idxtable.Table[any] { return idxtable.NewTableMax[any](max) }
