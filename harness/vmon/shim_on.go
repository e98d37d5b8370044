//go:build shim

package main

import "verifharness/verifsync"

func shimCounters() map[string]int64 {
	if verifsync.LockOps.Load() == 0 {
		return nil
	}
	return map[string]int64{
		"lock_operations_observed":      verifsync.LockOps.Load(),
		"nested_read_locks_observed":    verifsync.NestedRLocks.Load(),
		"nested_read_locks_delayed":     verifsync.NestedDelayed.Load(),
		"locks_taken_while_holding_one": verifsync.SecondLocks.Load(),
		"writers_that_had_to_wait":      verifsync.WriterWaited.Load(),
	}
}
