package main

import (
	"fmt"
	"math"
	"math/big"
	"net/netip"
	"time"

	rtable "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"k8s.io/apimachinery/pkg/labels"
)

// The "huge" sections: objects with more than 65536 entries, beyond what a 16-bit count, position or length can hold.
// Filling stops early on a slow machine (or with a slow store); a case that came too short for that counts as trivial.

const past16 = 1 << 16

func (c *Case) late() bool {
	if time.Since(c.R.start) < 200*time.Second {
		return false
	}
	c.R.Count("fills_cut_short", 1)
	return true
}

// nthTime says whether step k of many is one of those looked at closely.
func (c *Case) nthTime(k, n int) bool {
	return k%n == 0 || k&(k-1) == 0 || k >= past16-2 && k <= past16+2
}

// hugeIdx claims n ids of a table, in order, by ClaimRange or one by one, or scattered.
func hugeIdx(c *Case, i int, n int) (idxtable.Table[any], *idxModel) {
	size, full, stride, base := uint64(n)+uint64(c.Rng.IntN(n)), false, uint64(1), uint64(0)
	switch i % 4 {
	case 1:
		size, stride = 1<<40, past16
	case 2:
		size = math.MaxUint64
		if hasMax {
			size, full = 0, true
		}
		base, stride = 5, math.MaxUint64/uint64(n)
	case 3:
		size, stride = uint64(n), 1 // exactly full
	}
	t, m := newIdx(c, size, full)
	c.Op("NewTable(%d) full %v: %d ids at %d, %d apart", size, full, n, base, stride)
	for k := 0; k < n; k++ {
		id := base + uint64(k)*stride
		if k&511 == 0 && c.late() {
			break
		}
		c.Check(t.Claim(id, k) == nil, "Claim(%d) failed, %d ids claimed", id, k)
		m.m[id] = k
		c.Beat()
	}
	return t, m
}

func hugeC01(r *Run) {
	r.Each("huge", r.N(4, 24), func(c *Case, i int) {
		n := past16 + 1 + c.Rng.IntN(20000)
		t, m := hugeIdx(c, i, n)
		ks := m.sorted()
		c.Check(t.Size() == len(ks), "Size() = %d, want %d", t.Size(), len(ks))
		for k, x := range c.Rng.Perm(len(ks)) {
			id := ks[x]
			switch _, cl := m.m[id]; {
			case k%5 < 2:
				c.Check(t.Claim(id, -1) != nil, "Claim(%d), claimed, succeeded", id)
			case k%5 == 2 && cl:
				c.Check(t.Update(id, -k) == nil, "Update(%d) failed", id)
				m.m[id] = -k
			case cl:
				c.Check(t.Release(id) == nil, "Release(%d) failed", id)
				delete(m.m, id)
				c.Check(t.Claim(id, k) == nil, "Claim(%d), just released, failed", id)
				m.m[id] = k
				if k&1 == 1 {
					c.Check(t.Release(id) == nil, "Release(%d) failed", id)
					delete(m.m, id)
				}
			}
			c.Beat()
			c.Check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
			m.checkID(c, t, id)
			m.checkID(c, t, ks[c.Rng.IntN(len(ks))])
			m.checkID(c, t, c.Rng.Uint64()>>c.Rng.IntN(64))
		}
		m.checkAll(c, t, ks)
		m.checkContent(c, t)
		r.Max("max_ids_in_play", int64(len(ks)))
		if len(ks) > past16 {
			c.Nontrivial()
		}
	})
}

func hugeC02(r *Run) {
	r.Each("huge", r.N(4, 40), func(c *Case, i int) {
		size, base, full := uint64(300000), uint64(0), false
		switch i % 4 {
		case 1:
			size = 1 << 40
			base = size - 300000
		case 2:
			if hasMax {
				size, full = 0, true
				base = ^uint64(300000 - 1)
			}
		}
		t, m := newIdx(c, size, full)
		c.Op("NewTable(%d) full %v, working from %d", size, full, base)
		acc, rej := 0, 0
		probe := func(start, n uint64) {
			ok := m.rangeOK(start, n)
			c.Op("range(%d,%d) want ok=%v", start, n, ok)
			if ok {
				acc++
			} else {
				rej++
			}
			rangeProbe(c, t, m, start, n)
		}
		for k, n := range []uint64{past16, past16 + 1, past16 + 2 + c.Rng.Uint64N(9000)} {
			if c.late() {
				break
			}
			at := base + c.Rng.Uint64N(20)
			in := []uint64{past16 - 1, past16, n - 1}[k] // how far in something is claimed
			c.Check(t.Claim(at+in, "in the way") == nil, "Claim(%d) failed", at+in)
			m.m[at+in] = "in the way"
			probe(at, n)
			c.Check(t.Release(at+in) == nil, "Release(%d) failed", at+in)
			delete(m.m, at+in)
			probe(at, n)
			probe(at+n-1, past16+5)
			for x := uint64(0); x < n; x++ {
				c.Check(t.Release(at+x) == nil, "Release(%d) failed", at+x)
				c.Beat()
				delete(m.m, at+x)
			}
			m.checkContent(c, t)
		}
		probe(base+300000-past16-3, past16+4) // one too many
		probe(base+300000-past16-3, past16+3)
		if !c.late() {
			probe(base, 2*past16+1)
		}
		if acc > 1 && rej > 1 {
			c.Nontrivial()
		}
		r.Count("ranges_accepted", int64(acc))
		r.Count("ranges_rejected", int64(rej))
	})
}

func hugeC03(r *Run) {
	r.Each("huge", r.N(5, 40), func(c *Case, i int) {
		size := uint64(200000)
		var pre []uint64
		switch i % 5 {
		case 0: // the first ids claimed
			for id := uint64(0); id < past16+c.Rng.Uint64N(300); id++ {
				pre = append(pre, id)
			}
		case 1: // every third
			for id := c.Rng.Uint64N(3); id < size; id += 3 {
				pre = append(pre, id)
			}
		case 2: // nothing claimed, more than 2^16 free
			size = past16 + 1 + c.Rng.Uint64N(3)
		case 3: // two free, far in
			size = 2*past16 + 10
			hole := past16 + c.Rng.Uint64N(past16)
			for id := uint64(0); id < size; id++ {
				if id != hole && id != hole+3 {
					pre = append(pre, id)
				}
			}
		default: // exactly 2^16 free
			size = 2 * past16
			for id := uint64(0); id < size; id += 2 {
				pre = append(pre, id)
			}
		}
		c.Op("NewTable(%d), %d claimed", size, len(pre))
		m := &idxModel{size: size, m: map[uint64]any{}}
		for _, id := range pre {
			m.m[id] = nil
		}
		free := m.lowestFree(0, int(size))
		t, m := occupy(c, size, pre)
		for _, n := range []int{1, 2, past16 - 1, past16, past16 + 1, past16 + 1 + c.Rng.IntN(len(free)), len(free) - 1, len(free), len(free) + 1, len(free) + past16} {
			ids, err := t.FindFreeSize(uint64(n))
			c.Check((err == nil) == (n <= len(free)) && (err != nil || eqU(ids, free[:n])), "FindFreeSize(%d) lists %d ids, %v; %d are free", n, len(ids), err, len(free))
			c.Beat()
		}
		claim := func(n int) {
			es, err := t.ClaimSize(uint64(n), n)
			c.Op("ClaimSize(%d) with %d free: %d entries, %v", n, len(free), len(es), err)
			c.Check((err == nil) == (n <= len(free)), "ClaimSize(%d) error %v; %d are free", n, err, len(free))
			if err == nil {
				c.Check(len(es) == n, "ClaimSize(%d) returned %d entries", n, len(es))
				for k, e := range es {
					c.Check(e.ID() == free[k] && e.Data() == n, "ClaimSize(%d)[%d] = (%d,%v), want id %d", n, k, e.ID(), e.Data(), free[k])
					m.m[e.ID()] = n
				}
				free = free[n:]
			}
			m.checkContent(c, t)
		}
		claim(len(free) + 1)
		if len(free) > past16+1 {
			claim(past16 + 1)
		} else if len(free) > 1 {
			claim(len(free) - 1)
		}
		for k := 0; k < 30 && len(free) > 0; k++ {
			f, err := t.FindFree()
			c.Check(err == nil && f == free[0], "FindFree() = %d, %v; want %d", f, err, free[0])
			e, err := t.ClaimDynamic(-k)
			c.Check(err == nil && e != nil && e.ID() == free[0] && e.Data() == -k, "ClaimDynamic = %v, %v; want id %d", e, err, free[0])
			c.Beat()
			m.m[free[0]] = -k
			free = free[1:]
		}
		if len(free) > 0 {
			claim(len(free))
		}
		claim(1)
		_, err := t.ClaimDynamic(0)
		c.Check(err != nil, "ClaimDynamic on a full table of %d ids succeeded", size)
		back := size - 1 - c.Rng.Uint64N(9)
		c.Check(t.Release(back) == nil, "Release(%d) failed", back)
		delete(m.m, back)
		e, err := t.ClaimDynamic("back")
		c.Check(err == nil && e != nil && e.ID() == back, "ClaimDynamic = %v, %v; only %d is free", e, err, back)
		m.m[back] = "back"
		m.checkContent(c, t)
		c.Nontrivial()
	})
}

func hugeC04(r *Run) {
	r.Each("huge", r.N(4, 24), func(c *Case, i int) {
		n := past16 + 1 + c.Rng.IntN(9000)
		t, m := hugeIdx(c, i, n)
		small := m.size > 0 && m.size < 1<<20
		snaps := func(at string) []*snap {
			ks := m.sorted()
			ds := make([]any, len(ks))
			for i, k := range ks {
				ds[i] = m.m[k]
			}
			out := []*snap{{what: "Iterate " + at, ids: ks, data: ds, it: t.Iterate()}, {what: "GetAll " + at, ids: ks, data: ds, all: t.GetAll()}}
			if small {
				out = append(out, &snap{what: "IterateFree " + at, ids: m.lowestFree(0, int(m.size)), it: t.IterateFree()})
			}
			return out
		}
		live := snaps("when filled")
		ks := m.sorted()
		for k, x := range c.Rng.Perm(len(ks)) {
			if id := ks[x]; k%3 == 0 || k%3 == 1 && small {
				c.Check(t.Release(id) == nil, "Release(%d) failed", id)
				delete(m.m, id)
			} else {
				c.Check(t.Update(id, -k) == nil, "Update(%d) failed", id)
				m.m[id] = -k
			}
			c.Beat()
		}
		live = append(live, snaps("after releases")...)
		if small { // more than 2^16 free ones as well
			t, m = newIdx(c, 3*past16, false)
			for id := uint64(0); id < 3*past16; id += 3 {
				c.Check(t.Claim(id, nil) == nil, "Claim(%d) failed", id)
				m.m[id] = nil
			}
			live = append(live, snaps("every third claimed")...)
		}
		for _, s := range live {
			s.drain(c)
			if s.it != nil {
				c.Check(!s.it.Next(), "%s: Next() after the end", s.what)
			}
			r.Max("longest_enumeration", int64(len(s.ids)))
		}
		c.Nontrivial()
	})
}

func hugeC09(r *Run) {
	r.Each("huge", r.N(4, 24), func(c *Case, i int) {
		w := widths[1+i%2]
		n := past16 + 1 + c.Rng.Uint64N(5000)
		m := &tabModel{w: w, m: map[uint64]labels.Set{}}
		m.start = []uint64{0, 9, w.Max - 2*n, c.Rng.Uint64N(w.Max - 2*n)}[c.Rng.IntN(4)]
		m.end = m.start + n - 1 // to be filled completely
		t := w.NewTable(m.start, m.end)
		c.Op("table%d.New(%d,%d): claim all %d ids", w.B, m.start, m.end, n)
		done := true
		for k, x := range c.Rng.Perm(int(n)) {
			if k&511 == 0 && c.late() {
				done = false
				break
			}
			id := m.start + uint64(x)
			c.Check(t.Claim(id, nil) == nil, "Claim(%d) failed with %d claimed", id, k)
			m.m[id] = nil
			c.Beat()
			if c.nthTime(k, 97) {
				c.Check(t.Size() == k+1 && t.Claim(id, nil) != nil && t.Has(id) && !t.IsFree(id), "Size() = %d, Has(%d) = %v after claim %d", t.Size(), id, t.Has(id), k+1)
			}
		}
		if done {
			_, err := t.FindFree()
			c.Check(err != nil, "FindFree on a full table succeeded")
			e, err := t.ClaimFree(nil)
			c.Check(err != nil, "ClaimFree on a full table returned %v", e)
		}
		for _, id := range []uint64{m.start - 1, m.end + 1, m.end + past16, m.start - past16, m.end + 1<<32} {
			c.Check(m.in(id) || !t.Has(id) && !t.IsFree(id) && t.Claim(id, nil) != nil, "id %d outside the window %d-%d was accepted", id, m.start, m.end)
		}
		for k := 0; k < 60; k++ {
			id := m.end - c.Rng.Uint64N(n)
			if k%3 == 0 {
				id = m.end - uint64(k)
			}
			_, cl := m.m[id]
			c.Check(t.Release(id) == nil, "Release(%d) failed", id)
			delete(m.m, id)
			if !cl || !done {
				continue
			}
			if k%2 == 0 {
				want, _ := m.lowestFree()
				e, err := t.ClaimFree(nil)
				c.Check(err == nil && e != nil && e.ID().ID() == want, "ClaimFree = %v, %v; want %d", e, err, want)
				m.m[want] = nil
			}
			c.Beat()
		}
		for id := range m.m {
			if c.Rng.IntN(3) == 0 {
				c.Check(t.Release(id) == nil, "Release(%d) failed", id)
				delete(m.m, id)
				c.Beat()
			}
		}
		m.checkState(c, t, []uint64{m.start - 1, m.end + 1, m.end - 1})
		r.Max("largest_content", int64(n))
		c.Nontrivial()
	})
}

func hugeC10(r *Run) {
	r.Each("huge", r.N(3, 18), func(c *Case, i int) {
		w := widths[i%3]
		n := past16 + 1 + c.Rng.Uint64N(2000)
		if w.B == 16 {
			n = past16
		}
		m := &tabModel{w: w, m: map[uint64]labels.Set{}, end: w.Max}
		if w.B > 16 {
			m.start = c.Rng.Uint64N(w.Max - 2*n)
		}
		t := w.NewTable(m.start, m.end)
		c.Op("table%d.New(%d,%d), %d ids in play", w.B, m.start, m.end, n)
		for k, x := range c.Rng.Perm(int(n)) {
			if k&511 == 0 && c.late() {
				break
			}
			id := m.start + uint64(x)
			l := labels.Set{"uid": fmt.Sprint(k), "all": "y", "a": labelVals[k%4]}
			c.Check(t.Claim(id, l) == nil, "Claim(%d) failed with %d claimed", id, k)
			m.m[id] = l
			c.Beat()
		}
		look := func() {
			ks := m.sorted()
			all := t.GetAll()
			c.Check(len(all) == len(ks), "GetAll lists %d entries, want %d", len(all), len(ks))
			for x, e := range all {
				m.checkEntry(c, "GetAll", e, ks[x])
			}
			own(c, "GetAll", all)
			for _, s := range []string{"all=y", "a=x", "a!=x", "!all", "uid=65536", "uid>65530", "a in (x,y)"} {
				sel, err := labels.Parse(s)
				c.Check(err == nil, "%v", err)
				var want []uint64
				for _, id := range ks {
					if sel.Matches(m.m[id]) {
						want = append(want, id)
					}
				}
				got := t.GetByLabel(sel)
				c.Check(len(got) == len(want), "GetByLabel(%q) lists %d entries of %d, want %d", sel, len(got), len(ks), len(want))
				for x, e := range got {
					m.checkEntry(c, fmt.Sprintf("GetByLabel(%q)", sel), e, want[x])
				}
				own(c, "GetByLabel", got)
			}
			for k := 0; k < 3000; k++ {
				id := ks[c.Rng.IntN(len(ks))]
				e, err := t.Get(id)
				c.Check(err == nil, "Get(%d): %v", id, err)
				m.checkEntry(c, "Get", e, id)
			}
		}
		look()
		k := 0
		for id := range m.m {
			if k++; k%3 > 0 {
				continue
			}
			l := labels.Set{"uid": fmt.Sprint(200000 + k), "a": "x"}
			c.Check(t.Update(id, l) == nil, "Update(%d) failed", id)
			m.m[id] = l
			c.Beat()
		}
		look()
		r.Max("largest_content", int64(len(m.m)))
		c.Nontrivial()
	})
}

func hugeC12(r *Run) {
	pools := [][2]string{{"10.0.0.9", "10.1.255.255"}, {"2001:db8::fff0", "2001:db8::3:0"}, {"255.253.0.0", "255.255.255.255"}, {"2001:db8::ffff:ffff:ffff:0", "2001:db8:0:1::2:0"}}
	r.Each("huge", r.N(4, 16), func(c *Case, i int) {
		x := pools[i%len(pools)]
		m := &ipModel{from: netip.MustParseAddr(x[0]), to: netip.MustParseAddr(x[1]), m: map[netip.Addr]rtable.Route{}}
		t := iptable.New(m.from, m.to)
		n := past16 + 1 + c.Rng.IntN(2000)
		c.Op("New(%s,%s): claim %d addresses", m.from, m.to, n)
		for k, x := range c.Rng.Perm(n) {
			if k&511 == 0 && c.late() {
				break
			}
			a := addrAdd(m.from, big.NewInt(int64(x)))
			rt := rtable.NewRoute(routePrefix(c.Rng, a), labels.Set{"uid": fmt.Sprint(k), "a": labelVals[k%4]}, nil)
			c.Check(t.Claim(a.String(), rt) == nil, "Claim(%s) failed with %d claimed", a, k)
			m.m[a] = rt
			c.Beat()
			if c.nthTime(k, 97) {
				g, err := t.Get(a.String())
				c.Check(t.Size() == k+1 && err == nil && rkey(g) == rkey(rt) && t.Claim(a.String(), rt) != nil, "Size() = %d, Get(%s) = %v, %v after claim %d", t.Size(), a, g, err, k+1)
			}
		}
		m.checkState(c, t, nil)
		for _, s := range []string{"a=x", "a!=x"} {
			sel, _ := labels.Parse(s)
			var want []string
			for _, a := range m.sorted() {
				if sel.Matches(m.m[a].Labels()) {
					want = append(want, rkey(m.m[a]))
				}
			}
			got := t.GetByLabel(sel)
			c.Check(len(got) == len(want), "GetByLabel(%q) lists %d routes, want %d", s, len(got), len(want))
			for x, rt := range got {
				c.Check(rkey(rt) == want[x], "GetByLabel(%q)[%d] = %s, want %s", s, x, rkey(rt), want[x])
			}
		}
		for k, a := range m.sorted() {
			if k%3 != 1 {
				continue
			}
			c.Check(t.Release(a.String()) == nil, "Release(%s) failed", a)
			delete(m.m, a)
			c.Beat()
		}
		m.checkState(c, t, nil)
		r.Max("largest_content", int64(n))
		c.Nontrivial()
	})
}

// hugeTree is a tree with more than 65536 entries: single ids in a run, single ids and blocks from all over.
func hugeTree(c *Case, i int, label func(int) labels.Set) (*treeModel, gtree.GTree) {
	m := newTreeModel(widths[i%3], widths[i%3].B)
	t := m.newTree(c)
	m.fillTree(c, t, past16+1+c.Rng.IntN(3000), label)
	c.Op("%d entries", len(m.m))
	c.R.Max("largest_content", int64(len(m.m)))
	return m, t
}

func hugeC14(r *Run) {
	r.Each("huge", 3, func(c *Case, i int) {
		w := widths[i]
		m := newTreeModel(w, uint8(min(17, w.B)))
		t := m.newTree(c)
		left := map[uint64]bool{}
		for len(left) < 5 {
			left[c.Rng.Uint64()&m.limit()] = true
		}
		left[m.limit()] = true
		for v := uint64(0); v <= m.limit(); v++ {
			if left[v] {
				continue
			}
			if v&511 == 0 && c.late() {
				return
			}
			c.Check(t.ClaimID(w.NewID(v, w.B), nil) == nil, "ClaimID(%d)", v)
			m.m[pk{v, w.B}] = nil
			c.Beat()
		}
		c.Op("a tree of %d bits with %d ids claimed, %d free", m.L, len(m.m), len(left))
		for n := len(left); n > 0; n-- {
			e, err := t.ClaimFree(nil)
			c.Check(err == nil && e != nil && e.ID().Length() == w.B && left[e.ID().ID()], "ClaimFree = %v, %v; %d of %d ids are free", e, err, n, m.limit()+1)
			m.m[pk{e.ID().ID(), w.B}] = nil
			delete(left, e.ID().ID())
		}
		e, err := t.ClaimFree(nil)
		c.Check(err != nil, "ClaimFree on a full tree of %d bits returned %v", m.L, e)
		m.checkAll(c, "", t)
		c.Nontrivial()
	})
}

func hugeC15(r *Run) {
	r.Each("huge", 3, func(c *Case, i int) {
		m, t := hugeTree(c, i, uidLabel)
		lim := m.limit()
		for k, x := range [][2]uint64{{1, lim - 1}, {3, past16 - 2}, {c.Rng.Uint64() & lim >> 1, lim - 7}} {
			m.claimRange(c, t, x[0], x[1], k)
			m.checkAll(c, "", t)
		}
		c.Nontrivial()
	})
}

func hugeC16(r *Run) {
	r.Each("huge", 3, func(c *Case, i int) {
		m, t := hugeTree(c, i, uidLabel)
		ks := m.sorted()
		qs := []pk{{0, 0}, {0, 1}, {m.w.Max &^ m.w.span(1), 1}}
		for k := 0; k < 12; k++ {
			q := ks[c.Rng.IntN(len(ks))]
			if k%2 == 0 {
				q.l = uint8(c.Rng.IntN(int(q.l) + 1))
				q.v &= m.w.mask(q.l)
			}
			qs = append(qs, q)
		}
		for _, q := range qs {
			if c.late() {
				break
			}
			a, b := m.checkRel(c, t, q)
			r.Max("most_children", int64(a))
			r.Max("most_parents", int64(b))
			r.Count("queries", 2)
		}
		c.Nontrivial()
	})
}

func hugeC17(r *Run) {
	r.Each("huge", 3, func(c *Case, i int) {
		m, t := hugeTree(c, i, func(k int) labels.Set {
			return labels.Set{"n": fmt.Sprint(k), "most": fmt.Sprint(min(k%50, 1)), "all": ""}
		})
		for _, s := range []string{"all", "most=1", "n=65536", "n>65530,n<65560", "most=0", "!all"} {
			sel, err := labels.Parse(s)
			c.Check(err == nil, "%v", err)
			var want []pk
			for _, p := range m.sorted() {
				if sel.Matches(m.m[p]) {
					want = append(want, p)
				}
			}
			m.checkList(c, fmt.Sprintf("GetByLabel(%s)", s), t.GetByLabel(sel), want)
		}
		most := m.drop(c, t, eqSel("most", "1")) // each removal may take a walk: most ids at once, then the rest
		m.checkAll(c, "", t)
		r.Max("most_released_at_once", int64(most))
		c.Nontrivial()
	})
}

func hugeC18(r *Run) {
	r.Each("huge", 3, func(c *Case, i int) {
		m, t := hugeTree(c, i, uidLabel)
		m.drop(c, t, eqSel("c", "2")) // freed places for both sides to reuse
		m.fillTree(c, t, past16+2, func(k int) labels.Set { return uidLabel(k + 100000) })
		m2, t2 := m.clone(), t.Clone()
		both := func(what string) {
			m.checkAll(c, "the original "+what+" ", t)
			m2.checkAll(c, "the clone "+what+" ", t2)
		}
		both("after Clone")
		m2.drop(c, t2, eqSel("c", "0"))
		both("after a release on the clone")
		m2.fillTree(c, t2, past16+3000, func(k int) labels.Set { return uidLabel(k + 200000) })
		both("after claims on the clone")
		m.drop(c, t, eqSel("c", "1"))
		both("after a release on the original")
		c.Nontrivial()
	})
}
