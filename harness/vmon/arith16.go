//go:build !noapi16

package main

import "github.com/henderiw/idxtable/pkg/tree/id16"

// The 16-bit package exports its carry arithmetic (the other widths use math/bits).
// A tree without those functions is built with noapi16.
func arith16(r *Run) {
	r.Each("carry16", r.N(64, 640), func(c *Case, i int) {
		w := widths[0]
		for k := 0; k < 2000; k++ {
			x, y, b := uint16(w.bound(c)), uint16(w.bound(c)), uint16(c.Rng.IntN(2))
			switch c.Rng.IntN(4) {
			case 0:
				y = x
			case 1:
				y = ^x
			}
			s, co := id16.Add16(x, y, b)
			if n := uint32(x) + uint32(y) + uint32(b); uint32(s)|uint32(co)<<16 != n {
				c.Fail("Add16(%d, %d, %d) = %d carry %d", x, y, b, s, co)
			}
			d, bo := id16.Sub16(x, y, b)
			if n := int32(x) - int32(y) - int32(b); int32(d)-int32(bo)<<16 != n || bo > 1 {
				c.Fail("Sub16(%d, %d, %d) = %d borrow %d", x, y, b, d, bo)
			}
			if k < 3 {
				c.Op("%d %d %d", x, y, b)
			} else {
				c.Beat()
				c.Mix(uint64(x)<<32 | uint64(y)<<8 | uint64(b))
			}
		}
		c.Nontrivial()
	})
}
