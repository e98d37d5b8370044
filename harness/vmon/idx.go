package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/henderiw/idxtable/pkg/idxtable"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C03"] = checkC03
	checks["C04"] = checkC04
}

// idxModel is the reference: a bounded exclusive map.
type idxModel struct {
	size uint64
	full bool // all 2^64 ids, size is 0
	m    map[uint64]any
}

func (m *idxModel) in(id uint64) bool { return m.full || id < m.size }
func (m *idxModel) sorted() []uint64 {
	ks := make([]uint64, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// lowestFree returns up to n lowest free ids at or above from.
func (m *idxModel) lowestFree(from uint64, n int) []uint64 {
	var out []uint64
	for id := from; m.in(id) && len(out) < n; id++ {
		if _, ok := m.m[id]; !ok {
			out = append(out, id)
		}
	}
	return out
}

func (m *idxModel) rangeOK(start, n uint64) bool {
	if n == 0 || !m.in(start) || m.full && start+n-1 < start || !m.full && n > m.size-start {
		return false
	}
	for i := uint64(0); i < n; i++ {
		if _, ok := m.m[start+i]; ok {
			return false
		}
	}
	return true
}

// checkAll compares everything observable about the claimed set with the model.
func (m *idxModel) checkAll(c *Case, t idxtable.Table[any], probe []uint64) {
	c.Check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
	for id := range m.m {
		m.checkID(c, t, id)
	}
	for _, id := range probe {
		m.checkID(c, t, id)
	}
}

func (m *idxModel) checkID(c *Case, t idxtable.Table[any], id uint64) {
	want, claimed := m.m[id]
	c.Check(t.Has(id) == claimed, "Has(%d) = %v, want %v", id, t.Has(id), claimed)
	if m.in(id) {
		c.Check(t.IsFree(id) == !claimed, "IsFree(%d) = %v, want %v", id, t.IsFree(id), !claimed)
	}
	e, err := t.Get(id)
	if !claimed {
		c.Check(err != nil, "Get(%d) of a free or outside id succeeded: %v", id, e)
		return
	}
	c.Check(err == nil, "Get(%d) failed: %v", id, err)
	c.Check(e != nil && e.ID() == id && e.Data() == want, "Get(%d) = %v, want data %v", id, e, want)
}

// checkContent compares the listing with the model (used by the range and dynamic checks to see exactly what was claimed).
func (m *idxModel) checkContent(c *Case, t idxtable.Table[any]) {
	all := t.GetAll()
	ks := m.sorted()
	c.Check(len(all) == len(ks), "table holds %d entries, want %d (%v)", len(all), len(ks), ks)
	for i, e := range all {
		c.Check(e.ID() == ks[i] && e.Data() == m.m[ks[i]], "entry %d is (%d,%v), want (%d,%v)", i, e.ID(), e.Data(), ks[i], m.m[ks[i]])
	}
	c.Check(t.Size() == len(ks), "Size() = %d, want %d", t.Size(), len(ks))
}

var idxSizes = []uint64{0, 1, 2, 3, 5, 8, 9, 17, 64, 100, 255, 1000, 65536, 1 << 20, 1 << 32, 1<<32 + 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}

func idPool(c *Case, size uint64) []uint64 {
	p := []uint64{0, 1, size - 1, size, size + 1, math.MaxUint64, math.MaxUint64 - 1, 1 << 32, 1<<32 - 1, 1 << 63}
	for i := 0; i < 3; i++ {
		p = append(p, 1<<c.Rng.IntN(64)-1+c.Rng.Uint64N(3))
	}
	for i := 0; i < 6; i++ {
		if size > 0 {
			p = append(p, c.Rng.Uint64N(size), c.Rng.Uint64N(min(size, 12)))
		}
		p = append(p, c.Rng.Uint64()>>c.Rng.IntN(64))
	}
	return p
}

func checkC01(r *Run) {
	r.rule = "a case is one table of a chosen size and a random history of 40-160 Claim/Update/Release/Get calls over a pool of in-range, boundary and out-of-range ids; after every call all pool ids and all claimed ids are compared with the reference map. large: the same with 1500 to 5000 ids in play, sizes up to 2^64. Non-trivial: at least one rejected double claim or rejected id, one release of a claimed id and one reclaim (or, for size 0, at least 5 rejected ids)."
	r.Each("history", r.N(1200, 40000), func(c *Case, i int) {
		size := idxSizes[i%len(idxSizes)]
		if i >= 2*len(idxSizes) && c.Rng.IntN(2) == 0 {
			size = 1 + c.Rng.Uint64N(40)
		}
		t, m := newIdx(c, size, size == 0 && hasMax && i%(2*len(idxSizes)) == 0)
		pool := idPool(c, size)
		c.Op("NewTable(%d) full %v", size, m.full)
		m.checkAll(c, t, pool)
		var rejected, released, reclaimed, updated int
		was := map[uint64]bool{}
		n := 40 + c.Rng.IntN(120)
		for k := 0; k < n; k++ {
			id := pool[c.Rng.IntN(len(pool))]
			var d any = c.Index*1000 + k
			switch c.Rng.IntN(12) {
			case 0:
				d = nil // a claimed id may hold the zero value
			case 1:
				d = ""
			}
			_, claimed := m.m[id]
			switch op := c.Rng.IntN(10); {
			case op < 4:
				err := t.Claim(id, d)
				c.Op("Claim(%d,%v) = %v", id, d, err)
				if m.in(id) && !claimed {
					c.Check(err == nil, "Claim(%d) on a free in-range id failed: %v", id, err)
					m.m[id] = d
					if was[id] {
						reclaimed++
					}
				} else {
					c.Check(err != nil, "Claim(%d) succeeded (in range %v, already claimed %v)", id, m.in(id), claimed)
					rejected++
				}
			case op < 6:
				err := t.Update(id, d)
				c.Op("Update(%d,%v) = %v", id, d, err)
				if claimed {
					c.Check(err == nil, "Update(%d) of a claimed id failed: %v", id, err)
					m.m[id] = d
					updated++
				} else {
					c.Check(err != nil, "Update(%d) of an unclaimed or outside id succeeded", id)
					rejected++
				}
			case op < 9:
				err := t.Release(id)
				c.Op("Release(%d) = %v", id, err)
				if m.in(id) {
					c.Check(err == nil, "Release(%d) of an in-range id failed: %v", id, err)
					if claimed {
						released++
						was[id] = true
					}
					delete(m.m, id)
				} else {
					c.Check(err != nil, "Release(%d) outside a table of size %d succeeded", id, size)
					rejected++
				}
			default:
				m.checkID(c, t, id)
			}
			m.checkAll(c, t, pool)
		}
		if size == 0 && rejected >= 5 || m.in(0) && rejected > 0 && released > 0 && reclaimed > 0 {
			c.Nontrivial()
		}
		r.Count("updates_applied", int64(updated))
		r.Count("rejections_observed", int64(rejected))
		r.Count("reclaims_observed", int64(reclaimed))
	})
	largeC01(r)
	types(r)
	hugeC01(r)
}

// newIdx makes a table of size ids, by either constructor, or of all 2^64 ids.
func newIdx(c *Case, size uint64, full bool) (idxtable.Table[any], *idxModel) {
	m := &idxModel{size: size, full: full, m: map[uint64]any{}}
	if hasMax && (full || size > 0 && c.Rng.IntN(4) == 0) {
		return newTableMax(size - 1), m
	}
	return idxtable.NewTable[any](size), m
}

// occupy claims the ids of mask in a new table and returns it with its model.
func occupy(c *Case, size uint64, ids []uint64) (idxtable.Table[any], *idxModel) {
	return occupyIn(c, size, false, ids)
}

func occupyIn(c *Case, size uint64, full bool, ids []uint64) (idxtable.Table[any], *idxModel) {
	t, m := newIdx(c, size, full)
	for _, id := range ids {
		d := fmt.Sprintf("pre%d", id)
		if err := t.Claim(id, d); err != nil {
			c.Fail("set-up Claim(%d) in table of size %d failed: %v", id, size, err)
		}
		m.m[id] = d
	}
	return t, m
}

func maskIDs(mask uint, size uint64) []uint64 {
	var ids []uint64
	for i := uint64(0); i < size; i++ {
		if mask>>i&1 == 1 {
			ids = append(ids, i)
		}
	}
	return ids
}

func eqU(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func rangeProbe(c *Case, t idxtable.Table[any], m *idxModel, start, n uint64) {
	want := m.rangeOK(start, n)
	ids, err := t.FindFreeRange(start, n)
	if n > 0 {
		c.Check((err == nil) == want, "size %d, claimed %v: FindFreeRange(%d,%d) = %v, %v; range is free and in bounds: %v", m.size, m.sorted(), start, n, ids, err, want)
		if want {
			exp := make([]uint64, n)
			for i := range exp {
				exp[i] = start + uint64(i)
			}
			c.Check(eqU(ids, exp), "size %d, claimed %v: FindFreeRange(%d,%d) = %v", m.size, m.sorted(), start, n, ids)
		}
	} else {
		c.Check(len(ids) == 0, "FindFreeRange(%d,0) returned ids %v", start, ids)
	}
	m.checkContent(c, t)
	before := m.sorted()
	d := fmt.Sprintf("r%d+%d", start, n)
	err = t.ClaimRange(start, n, d)
	c.Beat()
	if n > 0 {
		c.Check((err == nil) == want, "size %d, claimed %v: ClaimRange(%d,%d) = %v; range is free and in bounds: %v", m.size, before, start, n, err, want)
		if want {
			for i := uint64(0); i < n; i++ {
				m.m[start+i] = d
			}
		}
	}
	m.checkContent(c, t)
}

func checkC02(r *Run) {
	r.rule = "exhaustive: every occupancy mask of tables of size 0..7 (9 thorough) x every start 0..size+1 x every length 0..size+2 plus wrapping lengths, FindFreeRange then ClaimRange, full content compared. random: tables up to 300 ids or huge sizes with histories of range claims and releases. large: ranges of up to 5000 ids, free or with a single claimed id in the way. Non-trivial: mask is neither empty nor full (exhaustive) or the history had both an accepted and a rejected range (random)."
	maxSize := uint64(7)
	if r.thorough() {
		maxSize = 9
	}
	type job struct {
		size uint64
		mask uint
	}
	var jobs []job
	for s := uint64(0); s <= maxSize; s++ {
		for m := uint(0); m < 1<<s; m++ {
			jobs = append(jobs, job{s, m})
		}
	}
	r.Each("exhaustive", len(jobs), func(c *Case, i int) {
		j := jobs[i]
		pre := maskIDs(j.mask, j.size)
		c.Op("size %d claimed %v: all starts and lengths", j.size, pre)
		for start := uint64(0); start <= j.size+1; start++ {
			lens := []uint64{}
			for n := uint64(0); n <= j.size+2; n++ {
				lens = append(lens, n)
			}
			lens = append(lens, math.MaxUint64, math.MaxUint64-start, -start, -start+1, -start+j.size, 1<<63)
			for _, n := range lens {
				t, m := occupy(c, j.size, pre)
				rangeProbe(c, t, m, start, n)
				r.beats.Add(1)
			}
		}
		for _, start := range []uint64{math.MaxUint64, math.MaxUint64 - 1, 1 << 63} {
			for _, n := range []uint64{1, 2, 3, j.size + 1, math.MaxUint64} {
				t, m := occupy(c, j.size, pre)
				rangeProbe(c, t, m, start, n)
			}
		}
		if j.mask != 0 && j.mask != 1<<j.size-1 {
			c.Nontrivial()
		}
	})
	r.Each("random", r.N(600, 20000), func(c *Case, i int) {
		size := 1 + c.Rng.Uint64N(300)
		base := uint64(0)
		if i%4 == 0 {
			size = idxSizes[c.Rng.IntN(len(idxSizes))]
			if size > 400 {
				base = size - 200 // work near the end of a huge table
			}
		}
		full := hasMax && i%40 == 5
		if full {
			size, base = 0, math.MaxUint64-199
		}
		c.Op("NewTable(%d) full %v", size, full)
		t, m := occupyIn(c, size, full, nil)
		acc, rej := 0, 0
		for k := 0; k < 30; k++ {
			if c.Rng.IntN(3) == 0 {
				for id := range m.m {
					c.Op("Release(%d)", id)
					c.Check(t.Release(id) == nil, "Release(%d) failed", id)
					delete(m.m, id)
					break
				}
			}
			start := base + c.Rng.Uint64N(min(size-base+3, 220))
			n := uint64(1 + c.Rng.IntN(12))
			switch c.Rng.IntN(12) {
			case 0:
				n = size - start
				if n > 500 {
					n = 1
				}
			case 1:
				n = size - start + 1
			case 2:
				n = -start + c.Rng.Uint64N(20) // start+n wraps
			case 3:
				n = 0
			case 4:
				n = 1
			}
			ok := m.rangeOK(start, min(n, 1000)) && n <= 1000
			if n > 1000 && (ok || m.full && start+n-1 >= start) {
				continue
			}
			c.Op("range(%d,%d) want ok=%v", start, n, ok)
			if ok {
				acc++
			} else {
				rej++
			}
			rangeProbe(c, t, m, start, n)
		}
		if acc > 0 && rej > 0 {
			c.Nontrivial()
		}
		r.Count("ranges_accepted", int64(acc))
		r.Count("ranges_rejected", int64(rej))
	})
	largeC02(r)
	types(r)
	hugeC02(r)
}

func dynProbe(c *Case, mk func() (idxtable.Table[any], *idxModel), n uint64) {
	t, m := mk()
	pre := m.sorted()
	nn := int(min(n, 20000))
	free := m.lowestFree(0, nn)
	want := uint64(len(free)) >= n
	ids, err := t.FindFreeSize(n)
	if n > 0 {
		c.Check((err == nil) == want, "size %d, claimed %v: FindFreeSize(%d) = %v, %v; %d free", m.size, pre, n, ids, err, len(free))
		if want {
			c.Check(eqU(ids, free), "size %d, claimed %v: FindFreeSize(%d) = %v, want %v", m.size, pre, n, ids, free)
		}
	} else {
		c.Check(len(ids) == 0, "FindFreeSize(0) returned %v", ids)
	}
	m.checkContent(c, t)
	es, err := t.ClaimSize(n, "sz")
	c.Beat()
	if n > 0 {
		c.Check((err == nil) == want, "size %d, claimed %v: ClaimSize(%d) error %v; %d free", m.size, pre, n, err, len(free))
		if want {
			c.Check(uint64(len(es)) == n, "ClaimSize(%d) returned %d entries", n, len(es))
			for i, e := range es {
				c.Check(e.ID() == free[i] && e.Data() == "sz", "size %d, claimed %v: ClaimSize(%d)[%d] = (%d,%v), want id %d", m.size, pre, n, i, e.ID(), e.Data(), free[i])
				m.m[e.ID()] = "sz"
			}
		}
	}
	m.checkContent(c, t)
	if n == 1 {
		t, m := mk()
		f, ferr := t.FindFree()
		c.Check((ferr == nil) == want && (!want || f == free[0]), "size %d, claimed %v: FindFree() = %d, %v; free %v", m.size, pre, f, ferr, free)
		m.checkContent(c, t)
		e, err := t.ClaimDynamic("dyn")
		c.Check((err == nil) == want, "size %d, claimed %v: ClaimDynamic error %v; free %v", m.size, pre, err, free)
		if want {
			c.Check(e != nil && e.ID() == free[0] && e.Data() == "dyn", "size %d, claimed %v: ClaimDynamic = %v, want id %d", m.size, pre, e, free[0])
			m.m[e.ID()] = "dyn"
		}
		m.checkContent(c, t)
	}
}

func checkC03(r *Run) {
	r.rule = "exhaustive: every occupancy mask of tables of size 0..9 (11 thorough) x every request size 0..size+2 and extreme sizes. history: random mixes of ClaimDynamic/ClaimSize/FindFree/FindFreeSize/Claim/Release on tables of 1..60 ids, run to exhaustion and back. large: tables with thousands of claimed ids, fragmented or not, requests of up to all free ids. Non-trivial: mask neither empty nor full; history reached a full table and reallocated a released id."
	maxSize := uint64(9)
	if r.thorough() {
		maxSize = 11
	}
	type job struct {
		size uint64
		mask uint
	}
	var jobs []job
	for s := uint64(0); s <= maxSize; s++ {
		for m := uint(0); m < 1<<s; m++ {
			jobs = append(jobs, job{s, m})
		}
	}
	r.Each("exhaustive", len(jobs), func(c *Case, i int) {
		j := jobs[i]
		pre := maskIDs(j.mask, j.size)
		c.Op("size %d claimed %v: all request sizes", j.size, pre)
		for n := uint64(0); n <= j.size+2; n++ {
			dynProbe(c, func() (idxtable.Table[any], *idxModel) { return occupy(c, j.size, pre) }, n)
		}
		for _, n := range []uint64{math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1 << 32} {
			dynProbe(c, func() (idxtable.Table[any], *idxModel) { return occupy(c, j.size, pre) }, n)
		}
		if j.mask != 0 && j.mask != 1<<j.size-1 {
			c.Nontrivial()
		}
	})
	if hasMax {
		r.Each("full", r.N(40, 400), func(c *Case, i int) { // all 2^64 ids
			var pre []uint64
			for id := uint64(0); id < 12; id++ {
				if c.Rng.IntN(3) > 0 {
					pre = append(pre, id)
				}
			}
			pre = append(pre, math.MaxUint64, 1<<63)
			c.Op("all ids, claimed %v", pre)
			for n := uint64(0); n < 14; n++ {
				dynProbe(c, func() (idxtable.Table[any], *idxModel) { return occupyIn(c, 0, true, pre) }, n)
			}
			c.Nontrivial()
		})
	}
	r.Each("history", r.N(700, 25000), func(c *Case, i int) {
		size := 1 + c.Rng.Uint64N(60)
		c.Op("NewTable(%d)", size)
		t, m := occupy(c, size, nil)
		full, realloc := 0, 0
		was := map[uint64]bool{}
		got := func(id uint64) {
			if was[id] {
				realloc++
			}
		}
		for k := 0; k < 120; k++ {
			d := any(k)
			if len(m.m) == int(size) {
				full++
			}
			free := m.lowestFree(0, int(size))
			switch op := c.Rng.IntN(9); op {
			case 0, 1:
				e, err := t.ClaimDynamic(d)
				c.Op("ClaimDynamic = %v, %v", e, err)
				c.Check((err == nil) == (len(free) > 0), "ClaimDynamic error %v with free ids %v", err, free)
				if err == nil {
					c.Check(e.ID() == free[0] && e.Data() == d, "ClaimDynamic = (%d,%v), want lowest free %d", e.ID(), e.Data(), free[0])
					got(e.ID())
					m.m[e.ID()] = d
				}
			case 2:
				n := uint64(c.Rng.IntN(8))
				if c.Rng.IntN(5) == 0 {
					n = uint64(len(free) + c.Rng.IntN(2))
				}
				es, err := t.ClaimSize(n, d)
				c.Op("ClaimSize(%d) = %v", n, err)
				if n > 0 {
					c.Check((err == nil) == (uint64(len(free)) >= n), "ClaimSize(%d) error %v with %d free", n, err, len(free))
					if err == nil {
						c.Check(uint64(len(es)) == n, "ClaimSize(%d) returned %d", n, len(es))
						for x, e := range es {
							c.Check(e.ID() == free[x] && e.Data() == d, "ClaimSize(%d)[%d] = %d, want %d", n, x, e.ID(), free[x])
							got(e.ID())
							m.m[e.ID()] = d
						}
					}
				}
			case 3:
				f, err := t.FindFree()
				c.Op("FindFree = %d, %v", f, err)
				c.Check((err == nil) == (len(free) > 0) && (err != nil || f == free[0]), "FindFree = %d, %v with free %v", f, err, free)
			case 4:
				n := uint64(1 + c.Rng.IntN(6))
				ids, err := t.FindFreeSize(n)
				c.Op("FindFreeSize(%d) = %v, %v", n, ids, err)
				c.Check((err == nil) == (uint64(len(free)) >= n) && (err != nil || eqU(ids, free[:n])), "FindFreeSize(%d) = %v, %v with free %v", n, ids, err, free)
			case 5:
				id := c.Rng.Uint64N(size)
				_, cl := m.m[id]
				err := t.Claim(id, d)
				c.Op("Claim(%d) = %v", id, err)
				c.Check((err == nil) == !cl, "Claim(%d) error %v, claimed %v", id, err, cl)
				if !cl {
					m.m[id] = d
				}
			default:
				if k < 60 && op != 8 {
					continue // fill first, drain later
				}
				ks := m.sorted()
				for x := 0; x < 1+c.Rng.IntN(3) && len(ks) > 0; x++ {
					id := ks[c.Rng.IntN(len(ks))]
					c.Op("Release(%d)", id)
					c.Check(t.Release(id) == nil, "Release(%d) failed", id)
					delete(m.m, id)
					was[id] = true
				}
			}
			m.checkContent(c, t)
		}
		if full > 0 && realloc > 0 {
			c.Nontrivial()
		}
		r.Count("states_with_full_table", int64(full))
		r.Count("ids_reallocated_after_release", int64(realloc))
	})
	largeC03(r)
	types(r)
	hugeC03(r)
}

type snap struct {
	what string
	ids  []uint64
	data []any
	it   *idxtable.Iterator[any]
	all  idxtable.Entries[any]
	pos  int
}

// step advances an iterator by one and compares.
func (s *snap) step(c *Case) bool {
	ok := s.it.Next()
	c.Check(ok == (s.pos < len(s.ids)), "%s: Next() = %v at position %d of %v", s.what, ok, s.pos, s.ids)
	if !ok {
		return false
	}
	id := s.it.ID()
	c.Check(id == s.ids[s.pos], "%s: yields id %d at position %d, snapshot was %v", s.what, id, s.pos, s.ids)
	cons := s.pos > 0 && s.ids[s.pos-1] == id-1
	c.Check(s.it.IsConsecutive() == cons, "%s: IsConsecutive() = %v at id %d, ids %v", s.what, s.it.IsConsecutive(), id, s.ids)
	if s.data != nil {
		v := s.it.Value()
		c.Check(v != nil && v.ID() == id && v.Data() == s.data[s.pos], "%s: value at id %d is %v, snapshot had %v", s.what, id, v, s.data[s.pos])
	}
	s.pos++
	return true
}

func (s *snap) drain(c *Case) {
	if s.it == nil {
		c.Check(len(s.all) == len(s.ids), "%s: %d entries, want %v", s.what, len(s.all), s.ids)
		for i, e := range s.all {
			c.Check(e.ID() == s.ids[i] && e.Data() == s.data[i], "%s: entry %d is (%d,%v), want (%d,%v)", s.what, i, e.ID(), e.Data(), s.ids[i], s.data[i])
			s.all[i] = nil // the list is the caller's own
		}
		return
	}
	for s.step(c) {
	}
}

func takeSnaps(t idxtable.Table[any], m *idxModel, at int) []*snap {
	ks := m.sorted()
	ds := make([]any, len(ks))
	for i, k := range ks {
		ds[i] = m.m[k]
	}
	free := m.lowestFree(0, int(m.size))
	return []*snap{
		{what: fmt.Sprintf("Iterate@%d", at), ids: ks, data: ds, it: t.Iterate()},
		{what: fmt.Sprintf("GetAll@%d", at), ids: ks, data: ds, all: t.GetAll()},
		{what: fmt.Sprintf("IterateFree@%d", at), ids: free, it: t.IterateFree()},
	}
}

func checkC04(r *Run) {
	r.rule = "exhaustive: every occupancy mask of tables of size 0..10 (12 thorough), all three enumerations drained and compared. mutate: random histories on tables of 1..40 ids in which enumerations are taken at random moments, advanced a few steps, and drained after further claims, updates and releases. large: the same with up to 4300 ids from all of 2^64. Non-trivial: mask neither empty nor full; history drained at least three enumerations after a mutation that would change them."
	maxSize := uint64(10)
	if r.thorough() {
		maxSize = 12
	}
	type job struct {
		size uint64
		mask uint
	}
	var jobs []job
	for s := uint64(0); s <= maxSize; s++ {
		for m := uint(0); m < 1<<s; m++ {
			jobs = append(jobs, job{s, m})
		}
	}
	r.Each("exhaustive", len(jobs), func(c *Case, i int) {
		j := jobs[i]
		pre := maskIDs(j.mask, j.size)
		// claim in a scrambled order
		c.Rng.Shuffle(len(pre), func(a, b int) { pre[a], pre[b] = pre[b], pre[a] })
		c.Op("size %d claimed %v", j.size, pre)
		t, m := occupy(c, j.size, pre)
		for _, s := range takeSnaps(t, m, 0) {
			s.drain(c)
		}
		if j.mask != 0 && j.mask != 1<<j.size-1 {
			c.Nontrivial()
		}
	})
	r.Each("mutate", r.N(700, 25000), func(c *Case, i int) {
		size := 1 + c.Rng.Uint64N(40)
		big := i%10 == 0
		if big {
			size = 200 + c.Rng.Uint64N(2000)
		}
		c.Op("NewTable(%d)", size)
		t, m := occupy(c, size, nil)
		var live []*snap
		stale := 0
		for k := 0; k < 80; k++ {
			id := c.Rng.Uint64N(size)
			switch op := c.Rng.IntN(10); {
			case op < 4:
				if _, cl := m.m[id]; !cl {
					c.Op("Claim(%d)", id)
					c.Check(t.Claim(id, k) == nil, "Claim(%d) failed", id)
					m.m[id] = k
				}
			case op < 6:
				if _, cl := m.m[id]; cl {
					c.Op("Update(%d)", id)
					c.Check(t.Update(id, k) == nil, "Update(%d) failed", id)
					m.m[id] = k
				}
			case op < 7:
				ks := m.sorted()
				if len(ks) > 0 {
					id = ks[c.Rng.IntN(len(ks))]
				}
				c.Op("Release(%d)", id)
				c.Check(t.Release(id) == nil, "Release(%d) failed", id)
				delete(m.m, id)
			case op < 8 && len(live) < 12:
				c.Op("take snapshots @%d", k)
				live = append(live, takeSnaps(t, m, k)...)
			case len(live) > 0:
				x := c.Rng.IntN(len(live))
				s := live[x]
				if s.it != nil && c.Rng.IntN(3) > 0 {
					c.Op("step %s", s.what)
					if s.step(c) {
						continue
					}
				} else {
					c.Op("drain %s", s.what)
					s.drain(c)
				}
				stale++
				live = append(live[:x], live[x+1:]...)
			}
		}
		for _, s := range live {
			s.drain(c)
			stale++
		}
		if stale >= 3 {
			c.Nontrivial()
		}
		r.Count("enumerations_drained_after_mutation", int64(stale))
	})
	largeC04(r)
	types(r)
	hugeC04(r)
}
