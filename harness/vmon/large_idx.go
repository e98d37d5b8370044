package main

import (
	"fmt"
	"math"

	"github.com/henderiw/idxtable/pkg/idxtable"
)

// Tables with thousands of claimed ids: a property that holds for the handful of ids of the other sections may still fail
// once a batch, a chunk, a buffer or a counter of the implementation overflows.

// manyIDs returns n distinct ids below size (or of all 2^64, size 0): runs, the neighbourhoods of powers of two, the end of
// the table, and ids from all over.
func manyIDs(c *Case, size uint64, n int) []uint64 {
	in := func(id uint64) bool { return size == 0 || id < size }
	seen := map[uint64]bool{}
	var out []uint64
	add := func(id uint64) {
		if in(id) && !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	add(0)
	add(size - 1)
	for k := 0; k < 64; k++ {
		for d := uint64(0); d < 3; d++ {
			add(1<<k - 1 + d)
		}
	}
	for tries := 0; len(out) < n && tries < 20*n; tries++ {
		switch c.Rng.IntN(4) {
		case 0: // a run
			at := c.Rng.Uint64() >> c.Rng.IntN(64)
			if size > 0 {
				at %= size
			}
			for x, l := uint64(0), c.Rng.Uint64N(300); x < l && len(out) < n; x++ {
				add(at + x)
			}
		case 1:
			add(size - 1 - c.Rng.Uint64N(1000))
		case 2:
			add(c.Rng.Uint64())
		default:
			v := c.Rng.Uint64() >> c.Rng.IntN(64)
			if size > 0 {
				v %= size
			}
			add(v)
		}
	}
	c.Rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out[:min(n, len(out))]
}

func largeC01(r *Run) {
	sizes := []uint64{6000, 1 << 16, 1 << 20, 1 << 24, 1 << 32, 1<<63 + 5, math.MaxUint64, 0}
	r.Each("large", r.N(8, 120), func(c *Case, i int) {
		size := sizes[i%len(sizes)]
		if size == 0 && !hasMax {
			size = 1<<48 + 1
		}
		t, m := newIdx(c, size, size == 0)
		pool := manyIDs(c, size, 1500+c.Rng.IntN(3500))
		c.Op("NewTable(%d) full %v, %d ids in play", size, m.full, len(pool))
		rejected, released := 0, 0
		grow := true
		for k := 0; k < 3*len(pool); k++ {
			if k%len(pool) == 0 && k > 0 {
				grow = k/len(pool)%2 == 0
				m.checkAll(c, t, pool)
				m.checkContent(c, t)
			}
			id := pool[c.Rng.IntN(len(pool))]
			if c.Rng.IntN(2) == 0 {
				id = pool[k%len(pool)]
			}
			_, claimed := m.m[id]
			op := c.Rng.IntN(10)
			switch {
			case op < 2:
				err := t.Update(id, k)
				c.Check((err == nil) == claimed, "Update(%d) error %v, claimed %v", id, err, claimed)
				if claimed {
					m.m[id] = k
				}
			case grow && op < 9 || !grow && op < 3:
				err := t.Claim(id, k)
				c.Check((err == nil) == !claimed, "Claim(%d) error %v, claimed %v", id, err, claimed)
				if claimed {
					rejected++
				} else {
					m.m[id] = k
				}
			default:
				c.Check(t.Release(id) == nil, "Release(%d) failed", id)
				if claimed {
					released++
				}
				delete(m.m, id)
			}
			c.Beat()
			c.Mix(id + uint64(op))
			m.checkID(c, t, id)
			m.checkID(c, t, pool[c.Rng.IntN(len(pool))])
			c.Check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
		}
		m.checkAll(c, t, pool)
		m.checkContent(c, t)
		if rejected > 0 && released > 0 {
			c.Nontrivial()
		}
		r.Max("max_ids_in_play", int64(len(pool)))
	})
}

func largeC02(r *Run) {
	r.Each("large", r.N(40, 1000), func(c *Case, i int) {
		size := 2500 + c.Rng.Uint64N(17000)
		base, full := uint64(0), false
		switch i % 4 {
		case 1:
			size = []uint64{1 << 32, 1 << 63, math.MaxUint64, 1<<24 + 3000}[c.Rng.IntN(4)]
			base = size - 2500 - c.Rng.Uint64N(15000)
		case 2:
			if hasMax {
				size, full = 0, true
				base = -(2500 + c.Rng.Uint64N(15000))
			}
		}
		t, m := newIdx(c, size, full)
		span := size - base // ids from base to the end; for the full table the difference wraps to the right number
		c.Op("NewTable(%d) full %v, working on the last %d ids", size, full, span)
		acc, rej := 0, 0
		for k := 0; k < 8; k++ {
			n := 1 + c.Rng.Uint64N(min(span, 5000))
			if c.Rng.IntN(3) == 0 {
				n = min(span, 1<<(6+c.Rng.IntN(7))+c.Rng.Uint64N(3)-1)
			}
			start := base + c.Rng.Uint64N(span-n+1)
			if c.Rng.IntN(4) == 0 {
				start = base + span - n // up to the last id
			}
			// a free stretch, and in half of the cases a single claimed id inside it
			for x := uint64(0); x < n; x++ {
				if _, ok := m.m[start+x]; ok {
					c.Check(t.Release(start+x) == nil, "Release(%d) failed", start+x)
					delete(m.m, start+x)
				}
			}
			if c.Rng.IntN(2) == 0 {
				at := start + []uint64{0, n - 1, c.Rng.Uint64N(n), n - 1 - c.Rng.Uint64N(min(n, 70))}[c.Rng.IntN(4)]
				c.Check(t.Claim(at, "in the way") == nil, "Claim(%d) failed", at)
				m.m[at] = "in the way"
			}
			ok := m.rangeOK(start, n)
			c.Op("range(%d,%d) want ok=%v", start, n, ok)
			if ok {
				acc++
			} else {
				rej++
			}
			rangeProbe(c, t, m, start, n)
			if over := span - (start - base) + 1; over < 6000 { // one beyond the end
				rangeProbe(c, t, m, start, over)
			}
		}
		if acc > 0 && rej > 0 {
			c.Nontrivial()
		}
		r.Count("ranges_accepted", int64(acc))
		r.Count("ranges_rejected", int64(rej))
	})
}

func largeC03(r *Run) {
	r.Each("large", r.N(12, 300), func(c *Case, i int) {
		size := 3000 + c.Rng.Uint64N(6000)
		var pre []uint64
		switch i % 4 {
		case 0: // every other id
			for id := c.Rng.Uint64N(2); id < size; id += 2 {
				pre = append(pre, id)
			}
		case 1: // full up to a few holes
			for id := uint64(0); id < size; id++ {
				if c.Rng.IntN(200) > 0 {
					pre = append(pre, id)
				}
			}
		case 2: // random density
			d := 1 + c.Rng.IntN(9)
			for id := uint64(0); id < size; id++ {
				if c.Rng.IntN(10) < d {
					pre = append(pre, id)
				}
			}
		default: // a long claimed run, then free
			for id := uint64(0); id < size/2; id++ {
				pre = append(pre, id)
			}
			if c.Rng.IntN(2) == 0 {
				size = []uint64{1 << 32, 1 << 63, math.MaxUint64}[c.Rng.IntN(3)]
			}
		}
		c.Op("NewTable(%d), %d claimed", size, len(pre))
		m0 := &idxModel{size: size, m: map[uint64]any{}}
		for _, id := range pre {
			m0.m[id] = nil
		}
		free := uint64(len(m0.lowestFree(0, 12000)))
		ns := []uint64{1, 2, 1 + c.Rng.Uint64N(free), 1024, 1025, 1000 * (1 + c.Rng.Uint64N(6))}
		if free < 12000 {
			ns = append(ns, free-1, free, free+1, free+1000)
		}
		for _, n := range ns {
			if n <= 12000 {
				dynProbe(c, func() (idxtable.Table[any], *idxModel) { return occupy(c, size, pre) }, n)
			}
		}
		// one at a time, with releases below
		t, m := occupy(c, size, pre)
		from, claims := uint64(0), 0
		var mine []uint64
		for k := 0; k < 6000; k++ {
			if len(mine) > 0 && c.Rng.IntN(6) == 0 {
				id := mine[c.Rng.IntN(len(mine))]
				if _, ok := m.m[id]; ok {
					c.Check(t.Release(id) == nil, "Release(%d) failed", id)
					delete(m.m, id)
					from = min(from, id)
				}
				continue
			}
			for ; m.in(from) && m.m[from] != nil; from++ {
			}
			e, err := t.ClaimDynamic(k)
			c.Beat()
			c.Check((err == nil) == m.in(from), "ClaimDynamic error %v; lowest free id is %d of %d", err, from, size)
			if err != nil {
				break
			}
			c.Check(e.ID() == from && e.Data() == k, "ClaimDynamic = (%d,%v), want id %d", e.ID(), e.Data(), from)
			m.m[from] = k
			mine = append(mine, from)
			claims++
		}
		m.checkContent(c, t)
		if claims > 1 {
			c.Nontrivial()
		}
		r.Count("dynamic_claims_in_large_tables", int64(claims))
	})
}

func largeC04(r *Run) {
	sizes := []uint64{9000, 1 << 16, 1 << 32, 1<<63 + 5000, math.MaxUint64, 0}
	r.Each("large", r.N(12, 300), func(c *Case, i int) {
		size := sizes[i%len(sizes)]
		if size == 0 && !hasMax {
			size = math.MaxUint64 - 1
		}
		t, m := newIdx(c, size, size == 0)
		pool := manyIDs(c, size, 300+c.Rng.IntN(4000))
		c.Op("NewTable(%d) full %v, %d ids in play", size, m.full, len(pool))
		snaps := func(at int) []*snap {
			if size > 0 && size <= 9000 {
				return takeSnaps(t, m, at)
			}
			ks := m.sorted()
			ds := make([]any, len(ks))
			for i, k := range ks {
				ds[i] = m.m[k]
			}
			return []*snap{
				{what: fmt.Sprintf("Iterate@%d", at), ids: ks, data: ds, it: t.Iterate()},
				{what: fmt.Sprintf("GetAll@%d", at), ids: ks, data: ds, all: t.GetAll()},
			}
		}
		var live []*snap
		stale := 0
		for k := 0; k < 2*len(pool); k++ {
			id := pool[c.Rng.IntN(len(pool))]
			if k < len(pool) {
				id = pool[k]
			}
			if k%(len(pool)/3+1) == 7 && len(live) < 12 {
				c.Op("take snapshots @%d", k)
				live = append(live, snaps(k)...)
			}
			_, cl := m.m[id]
			switch {
			case !cl:
				c.Check(t.Claim(id, k) == nil, "Claim(%d) failed", id)
				m.m[id] = k
			case c.Rng.IntN(2) == 0:
				c.Check(t.Update(id, -k) == nil, "Update(%d) failed", id)
				m.m[id] = -k
			default:
				c.Check(t.Release(id) == nil, "Release(%d) failed", id)
				delete(m.m, id)
			}
			c.Beat()
			if len(live) > 0 && c.Rng.IntN(len(pool)/6+1) == 0 {
				x := c.Rng.IntN(len(live))
				live[x].drain(c)
				stale++
				live = append(live[:x], live[x+1:]...)
			}
		}
		for _, s := range append(live, snaps(-1)...) {
			s.drain(c)
			if s.it != nil {
				c.Check(!s.it.Next() && !s.it.Next(), "%s: Next() after the end", s.what)
			}
			stale++
		}
		if stale >= 3 {
			c.Nontrivial()
		}
		r.Count("enumerations_drained_after_mutation", int64(stale))
		r.Max("max_ids_in_play", int64(len(pool)))
	})
}
