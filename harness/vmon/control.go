package main

import (
	"strings"
)

// controlC18 looks for influence between a tree and its clone that leaves both correct by themselves (which id ClaimFree
// chooses, say, is the tree's business). The same history is run twice: once nothing is done to the other tree, once
// something is. What the observed tree answers must be the same. This presumes that the library is deterministic, so the
// runs are repeated, and a difference counts only if every repetition agrees.
func controlC18(r *Run) {
	r.Each("control", r.N(700, 20000), func(c *Case, i int) {
		x := newTr(widths[i%3], uint8(2+c.Rng.IntN(5)))
		all := []int{trClaim, trUpdate, trClaimFree, trRange, trRelease, trReleaseLabel, trClaimFree, trRelease}
		leaves := uint64(1) << x.bits
		ops := func(n int) []cop {
			ks := all
			if c.Rng.IntN(3) > 0 {
				ks = []int{all[c.Rng.IntN(len(all))], all[c.Rng.IntN(len(all))], all[c.Rng.IntN(len(all))]}
			}
			os := make([]cop, n)
			for k := range os {
				kind := ks[c.Rng.IntN(len(ks))]
				os[k] = x.gen(c.Rng, kind, int32(c.Rng.IntN(1000)+1))
				if c.Rng.IntN(3) > 0 && (kind == trClaim || kind == trUpdate || kind == trRelease) {
					os[k].a = uint64(len(x.pks)) - 1 - c.Rng.Uint64N(leaves)
				}
			}
			return os
		}
		var hist []cop
		for k := 1 + c.Rng.IntN(4); k > 0; k-- {
			hist = append(hist, ops(c.Rng.IntN(20))...)
		}
		observed, other := ops(10), append(ops(5), ops(8)...)
		onClone, at := c.Rng.IntN(2) == 0, c.Rng.IntN(len(observed))
		run := func(disturb bool) string {
			t := x.fresh().(*trTarget)
			g := &gctx{}
			for _, o := range hist {
				t.do(g, o)
			}
			cl := *t
			cl.t = t.t.Clone()
			a, b := t, &cl
			if onClone {
				a, b = b, a
			}
			var out []string
			for k, o := range observed {
				if disturb && k == at {
					for _, d := range other {
						b.do(g, d)
					}
				}
				out = append(out, a.describe(o)+" = "+a.do(g, o))
			}
			c.Beat()
			return strings.Join(append(out, "content "+renderPfx(a.t.GetAll())), "\n")
		}
		c.Op("tree of %d bits of width %d: %d operations, Clone, then operations on one of the two (the clone: %v)", x.bits, x.w.B, len(hist), onClone)
		for _, o := range hist {
			c.Mix(o.a<<32 | uint64(o.kind))
		}
		for _, o := range other {
			c.Mix(o.a<<32 | uint64(o.kind))
		}
		c.ops += int64(2*len(hist) + len(observed)*2 + len(other))
		alone, disturbed := run(false), run(true)
		c.Nontrivial()
		if alone == disturbed {
			return
		}
		for k := 0; k < 40; k++ {
			if run(false) != alone || run(true) != disturbed {
				r.Count("histories_not_deterministic", 1)
				return
			}
		}
		c.Fail("what is done to one of tree and clone changes the answers of the other; without it:\n%s\nwith it:\n%s", alone, disturbed)
	})
}
