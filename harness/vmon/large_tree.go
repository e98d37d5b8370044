package main

import (
	"fmt"
	"math/big"
	"net/netip"
	"strings"
	"time"

	rtable "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"k8s.io/apimachinery/pkg/labels"
)

// largeTab makes a windowed table and ids in it, adjacent, boundary and foreign ones.
func largeTab(c *Case, i int) (*tabModel, table.Table, []uint64) {
	w := widths[i%3]
	m := &tabModel{w: w, m: map[uint64]labels.Set{}}
	m.end = w.Max
	switch c.Rng.IntN(3) {
	case 0:
		m.start = c.Rng.Uint64N(w.Max / 4)
		m.end = w.Max - c.Rng.Uint64N(w.Max/4)
	case 1:
		m.start = w.Max - 5000 - c.Rng.Uint64N(5000)
	}
	t := w.NewTable(m.start, m.end)
	n := 600 + c.Rng.IntN(2400)
	var pool []uint64
	seen := map[uint64]bool{}
	add := func(v uint64) {
		if !seen[v] && m.in(v) {
			seen[v] = true
			pool = append(pool, v)
		}
	}
	span := m.end - m.start
	for x := uint64(0); x < uint64(n)/3; x++ { // the first ids, the last ones, and others
		add(m.start + x)
		add(m.end - c.Rng.Uint64N(uint64(n)))
		add(m.start + (c.Rng.Uint64()>>c.Rng.IntN(64))%max(span, 1))
	}
	c.Rng.Shuffle(len(pool), func(a, b int) { pool[a], pool[b] = pool[b], pool[a] })
	c.Op("table%d.New(%d,%d), %d ids in play", w.B, m.start, m.end, len(pool))
	return m, t, pool
}

func largeC09(r *Run) {
	r.Each("large", r.N(9, 200), func(c *Case, i int) {
		m, t, pool := largeTab(c, i)
		lowest := m.start // no free id below
		rel, free := 0, 0
		for k := 0; k < 3*len(pool); k++ {
			id := pool[c.Rng.IntN(len(pool))]
			if c.Rng.IntN(10) == 0 {
				id = m.end + 1 + c.Rng.Uint64N(3) // may wrap to the smallest ids
			}
			l := labels.Set{"uid": fmt.Sprint(k)}
			_, cl := m.m[id]
			op := c.Rng.IntN(10)
			if k > len(pool) && k < 2*len(pool) && op < 6 {
				op = 9
			}
			switch {
			case op < 4:
				err := t.Claim(id, l)
				c.Check((err == nil) == (m.in(id) && !cl), "Claim(%d) error %v; in window %v, claimed %v", id, err, m.in(id), cl)
				if err == nil {
					m.m[id] = l
				}
			case op < 6:
				for _, ok := m.m[lowest]; ok; _, ok = m.m[lowest] {
					lowest++
				}
				e, err := t.ClaimFree(l)
				if !m.in(lowest) {
					c.Check(err != nil, "ClaimFree on a full table succeeded")
					break
				}
				c.Check(err == nil && e != nil && e.ID().ID() == lowest, "ClaimFree = %v, %v; want %d", e, err, lowest)
				m.m[lowest] = l
				free++
			case op < 7:
				err := t.Update(id, l)
				c.Check((err == nil) == cl, "Update(%d) error %v, claimed %v", id, err, cl)
				if cl {
					m.m[id] = l
				}
			default:
				err := t.Release(id)
				c.Check((err == nil) == m.in(id), "Release(%d) error %v, in window %v", id, err, m.in(id))
				if cl {
					lowest = min(lowest, id)
					rel++
				}
				delete(m.m, id)
			}
			c.Beat()
			c.Mix(id<<4 | uint64(op))
			for _, id := range []uint64{id, pool[c.Rng.IntN(len(pool))], lowest} {
				l, cl := m.m[id]
				c.Check(t.Has(id) == cl, "Has(%d) = %v, want %v", id, t.Has(id), cl)
				c.Check(t.IsFree(id) == (m.in(id) && !cl), "IsFree(%d) = %v, want %v (window %d-%d)", id, t.IsFree(id), m.in(id) && !cl, m.start, m.end)
				e, err := t.Get(id)
				c.Check((err == nil) == cl && (!cl || lkey(e.Labels()) == lkey(l)), "Get(%d) = %v, %v; claimed %v with %v", id, e, err, cl, l)
			}
			c.Check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
			if k%len(pool) == 0 {
				m.checkState(c, t, pool)
			}
		}
		m.checkState(c, t, pool)
		if rel > 0 && free > 0 {
			c.Nontrivial()
		}
		r.Max("largest_content", int64(len(m.m)))
	})
}

func largeC10(r *Run) {
	r.Each("large", r.N(9, 200), func(c *Case, i int) {
		m, t, pool := largeTab(c, i)
		subset := 0
		for k := 0; k < 2*len(pool); k++ {
			id := pool[c.Rng.IntN(len(pool))]
			if k < len(pool) {
				id = pool[k]
			}
			l := randLabels(c, k)
			_, cl := m.m[id]
			switch {
			case !cl:
				c.Check(t.Claim(id, cloneLabels(l)) == nil, "Claim(%d) failed", id)
				m.m[id] = l
			case c.Rng.IntN(2) == 0:
				c.Check(t.Update(id, cloneLabels(l)) == nil, "Update(%d) failed", id)
				m.m[id] = l
			default:
				c.Check(t.Release(id) == nil, "Release(%d) failed", id)
				delete(m.m, id)
			}
			c.Beat()
			c.Mix(id)
			if k%(len(pool)/6+1) != 5 {
				continue
			}
			ks := m.sorted()
			c.Op("%d ids claimed", len(ks))
			all := t.GetAll()
			c.Check(len(all) == len(ks), "GetAll lists %d entries, want %d", len(all), len(ks))
			for x, e := range all {
				m.checkEntry(c, "GetAll", e, ks[x])
			}
			own(c, "GetAll", all)
			for q := 0; q < 6; q++ {
				sel := randSelector(c)
				var want []uint64
				for _, id := range ks {
					if sel.Matches(m.m[id]) {
						want = append(want, id)
					}
				}
				got := t.GetByLabel(sel)
				c.Check(len(got) == len(want), "GetByLabel(%q) lists %d entries of %d, want %d", sel, len(got), len(ks), len(want))
				for x, e := range got {
					m.checkEntry(c, fmt.Sprintf("GetByLabel(%q)", sel), e, want[x])
				}
				own(c, "GetByLabel", got)
				if len(want) > 0 && len(want) < len(ks) {
					subset++
				}
			}
		}
		if subset > 0 {
			c.Nontrivial()
		}
		r.Count("proper_subset_selections", int64(subset))
	})
}

func largeC12(r *Run) {
	pools := [][2]string{{"10.0.0.0", "10.0.63.255"}, {"0.0.0.0", "255.255.255.255"}, {"255.255.192.0", "255.255.255.255"},
		{"2001:db8::", "2001:db8::ffff:ffff:ffff:ffff"}, {"2001:db8::ffff:ffff:ffff:f000", "2001:db8:0:1::fff"}, {"::ffff:10.0.0.0", "::ffff:10.0.255.255"},
		{"2001:db8::8000:0:0:0", "2001:db8:0:1:8000::"}, {"ffff:ffff:ffff:ffff:ffff:ffff:ffff:0", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"}}
	r.Each("large", r.N(12, 200), func(c *Case, i int) {
		x := pools[i%len(pools)]
		m := &ipModel{from: netip.MustParseAddr(x[0]), to: netip.MustParseAddr(x[1]), m: map[netip.Addr]rtable.Route{}}
		t := iptable.New(m.from, m.to)
		var pool []netip.Addr
		n := 500 + c.Rng.IntN(1500)
		for k := 0; k < n; k++ {
			a := addrAdd(m.from, big.NewInt(c.Rng.Int64N(int64(n))))
			switch c.Rng.IntN(4) {
			case 0:
				a = addrAdd(m.to, big.NewInt(-c.Rng.Int64N(int64(n))))
			case 1:
				a = addrAdd(m.from, new(big.Int).SetUint64(c.Rng.Uint64()>>c.Rng.IntN(64)))
			}
			if m.in(a) {
				pool = append(pool, a)
			}
		}
		c.Op("New(%s,%s), %d addresses in play", m.from, m.to, len(pool))
		rel := 0
		for k := 0; k < 2*len(pool); k++ {
			a := pool[c.Rng.IntN(len(pool))]
			if k < len(pool) {
				a = pool[k]
			}
			s := spell(c, a)
			_, cl := m.m[a]
			rt := rtable.NewRoute(routePrefix(c.Rng, a), randLabels(c, k), map[string]any{"n": k})
			switch {
			case !cl:
				c.Check(t.Claim(s, rt) == nil, "Claim(%q) failed", s)
				m.m[a] = rt
			case c.Rng.IntN(4) == 0:
				c.Check(t.Claim(s, rt) != nil, "Claim(%q) of a claimed address succeeded", s)
			case c.Rng.IntN(2) == 0:
				c.Check(t.Update(s, rt) == nil, "Update(%q) failed", s)
				m.m[a] = rt
			default:
				c.Check(t.Release(s) == nil, "Release(%q) failed", s)
				delete(m.m, a)
				rel++
			}
			c.Beat()
			c.Mix(uint64(k))
			want, cl := m.m[a]
			g, err := t.Get(spell(c, a))
			c.Check((err == nil) == cl && (!cl || rkey(g) == rkey(want)), "Get(%s) = %v, %v; claimed %v", a, g, err, cl)
			c.Check(t.Has(s) == cl && t.IsFree(s) == !cl && t.Size() == len(m.m), "Has(%s) = %v, IsFree = %v, Size() = %d; claimed %v of %d", s, t.Has(s), t.IsFree(s), t.Size(), cl, len(m.m))
			if k%(len(pool)/4+1) == 7 {
				m.checkState(c, t, nil)
				for q := 0; q < 4; q++ {
					sel := randSelector(c)
					var w, got []string
					for _, a := range m.sorted() {
						if sel.Matches(m.m[a].Labels()) {
							w = append(w, rkey(m.m[a]))
						}
					}
					routes := t.GetByLabel(sel)
					for _, rt := range routes {
						got = append(got, rkey(rt))
					}
					ownRoutes(c, "GetByLabel", routes)
					c.Check(strings.Join(got, "\n") == strings.Join(w, "\n"), "GetByLabel(%q) lists %d routes, want %d, or in another order", sel, len(got), len(w))
				}
			}
		}
		m.checkState(c, t, nil)
		if rel > 0 {
			c.Nontrivial()
		}
		r.Max("largest_content", int64(len(m.m)))
	})
}

// fillTree claims n distinct prefixes: full-length ids in runs and from all over, and shorter prefixes.
func (m *treeModel) fillTree(c *Case, t gtree.GTree, n int, label func(k int) labels.Set) []pk {
	w := m.w
	lim := m.limit()
	at := c.Rng.Uint64() & lim
	var ps []pk
	for tries := 0; len(m.m) < n && tries < 10*n; tries++ {
		if tries%512 == 511 && time.Since(c.R.start) > 150*time.Second {
			c.R.Count("fills_cut_short", 1) // a slow machine or a slow tree
			break
		}
		p := pk{0, w.B}
		switch c.Rng.IntN(4) {
		case 0:
			p.v = c.Rng.Uint64() & lim
			p.l = w.B - uint8(c.Rng.IntN(int(m.L)+1))
			p.v &= w.mask(p.l)
		case 1:
			p.v = c.Rng.Uint64() & lim
		default:
			p.v = at & lim
			at++
			if c.Rng.IntN(500) == 0 {
				at = c.Rng.Uint64() & lim
			}
		}
		if _, ok := m.m[p]; ok {
			continue
		}
		l := label(tries)
		if err := t.ClaimID(m.id(c, p), l); err != nil {
			c.Fail("ClaimID(%v): %v", p, err)
		}
		c.Beat()
		m.m[p] = l
		ps = append(ps, p)
	}
	return ps
}

func uidLabel(k int) labels.Set { return labels.Set{"n": fmt.Sprint(k), "c": fmt.Sprint(k % 3)} }

// drop releases by selector, in tree and model.
func (m *treeModel) drop(c *Case, t gtree.GTree, sel labels.Selector) int {
	n := 0
	for p, l := range m.m {
		if sel.Matches(l) {
			delete(m.m, p)
			n++
		}
	}
	err := t.ReleaseByLabel(sel)
	c.Op("ReleaseByLabel(%s) = %v (%d match)", sel, err, n)
	c.Check(err == nil, "ReleaseByLabel(%s) failed: %v", sel, err)
	return n
}

func eqSel(k, v string) labels.Selector { return labels.SelectorFromSet(labels.Set{k: v}) }

func largeC13(r *Run) {
	r.Each("huge", 3, func(c *Case, i int) {
		w := widths[i]
		m := newTreeModel(w, w.B)
		t := m.newTree(c)
		n := 70000
		m.fillTree(c, t, n, uidLabel)
		c.Op("%d entries", len(m.m))
		m.checkList(c, "GetAll", t.GetAll(), m.sorted())
		c.Check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
		for round := 0; round < 2; round++ {
			m.drop(c, t, eqSel("c", fmt.Sprint(round)))
			ks := m.sorted()
			m.checkList(c, "GetAll", t.GetAll(), ks)
			for k, p := range ks { // looking up one id may take a walk over all
				if k%300 == round {
					c.Check(t.ReleaseID(m.id(c, p)) == nil, "ReleaseID(%v)", p)
					delete(m.m, p)
					c.Beat()
				}
			}
			m.checkList(c, "GetAll", t.GetAll(), m.sorted())
			m.fillTree(c, t, n-1000*round, func(k int) labels.Set { return uidLabel(k + 100000*(round+1)) })
			ks = m.sorted()
			m.checkList(c, "GetAll", t.GetAll(), ks)
			for k := 0; k < 200; k++ {
				p := ks[c.Rng.IntN(len(ks))]
				e, err := t.Get(m.id(c, p))
				c.Check(err == nil && e.ID().ID() == p.v && e.ID().Length() == p.l && lkey(e.Labels()) == lkey(m.m[p]), "Get(%v) = %v, %v; want labels %v", p, e, err, m.m[p])
			}
		}
		m.checkList(c, "Iterate", collect(t.Iterate(), len(m.m)+5), m.sorted())
		r.Max("largest_content", int64(len(m.m)))
		c.Nontrivial()
	})
}

func largeC14(r *Run) {
	r.Each("fragmented", r.N(9, 200), func(c *Case, i int) {
		w := widths[i%3]
		m := newTreeModel(w, uint8(8+c.Rng.IntN(4)))
		t := m.newTree(c)
		odd := c.Rng.Uint64N(2)
		free := map[uint64]bool{}
		for v := uint64(0); v <= m.limit(); v++ {
			if v&1 == odd || c.Rng.IntN(4) == 0 {
				c.Check(t.ClaimID(w.NewID(v, w.B), nil) == nil, "ClaimID(%d)", v)
				m.m[pk{v, w.B}] = nil
				c.Beat()
			} else {
				free[v] = true
			}
		}
		c.Op("a tree of %d bits, %d ids free, no two in a row", m.L, len(free))
		for len(free) > 0 {
			e, err := t.ClaimFree(nil)
			c.Check(err == nil && e != nil, "ClaimFree failed with %d ids free: %v", len(free), err)
			p := pk{e.ID().ID(), e.ID().Length()}
			c.Check(p.l == w.B && free[p.v], "ClaimFree returned %v, which is not a free id", p)
			c.Beat()
			delete(free, p.v)
			m.m[p] = nil
			if c.Rng.IntN(8) == 0 { // make room again
				v := c.Rng.Uint64() & m.limit()
				c.Check(t.ReleaseID(w.NewID(v, w.B)) == nil, "ReleaseID(%d)", v)
				delete(m.m, pk{v, w.B})
				free[v] = true
			}
			if len(m.m)%64 == 0 && len(free) < 40 {
				break
			}
		}
		for len(free) > 0 {
			p, ok := m.claimFree(c, t, 1)
			c.Check(ok && free[p.v], "ClaimFree returned %v, %v", p, ok)
			delete(free, p.v)
		}
		m.claimFree(c, t, 2)
		c.Nontrivial()
	})
	r.Each("blocks", r.N(12, 200), func(c *Case, i int) { // many blocks of many sizes, few holes
		w := widths[i%3]
		m := newTreeModel(w, w.B)
		t := m.newTree(c)
		holes := ivset{}
		at := c.Rng.Uint64N(w.Max - 50000)
		for k := 0; k < 200+c.Rng.IntN(300); k++ {
			holes = append(holes, iv{at, at})
			if at += 2 + c.Rng.Uint64N(60); at > w.Max-100 {
				break
			}
		}
		next := uint64(0)
		for _, h := range holes {
			if h.lo > next {
				for _, p := range w.decompose(next, h.lo-1) {
					c.Check(t.ClaimID(m.id(c, p), nil) == nil, "ClaimID(%v)", p)
					m.m[p] = nil
				}
			}
			next = h.hi + 1
		}
		for _, p := range w.decompose(next, w.Max) {
			c.Check(t.ClaimID(m.id(c, p), nil) == nil, "ClaimID(%v)", p)
			m.m[p] = nil
		}
		c.Op("%d blocks claimed, %d ids free", len(m.m), len(holes))
		left := map[uint64]bool{}
		for _, h := range holes {
			left[h.lo] = true
		}
		for range holes {
			e, err := t.ClaimFree(nil)
			c.Check(err == nil && e != nil && e.ID().Length() == w.B && left[e.ID().ID()], "ClaimFree = %v, %v; %d ids are free", e, err, len(left))
			m.m[pk{e.ID().ID(), w.B}] = nil
			delete(left, e.ID().ID())
			c.Beat()
		}
		m.claimFree(c, t, 1)
		m.checkAll(c, "", t)
		c.Nontrivial()
	})
}

func largeC15(r *Run) {
	r.Each("large", r.N(45, 1000), func(c *Case, i int) {
		w := widths[i%3]
		m := newTreeModel(w, w.B)
		if c.Rng.IntN(3) == 0 {
			m.L = uint8(9 + c.Rng.IntN(int(w.B)-8))
		}
		t := m.newTree(c)
		lim := m.limit()
		m.fillTree(c, t, int(min(lim/4, uint64(c.Rng.IntN(1200)))), uidLabel)
		c.Op("%d entries", len(m.m))
		for k := 0; k < 10; k++ {
			// ranges of the longest decompositions: all but a few ids at both ends of a block
			l := uint8(2 + c.Rng.IntN(int(m.L)-1))
			base := c.Rng.Uint64() & lim &^ lowBits(l)
			a, b := base+1+c.Rng.Uint64N(2), base+lowBits(l)-1-c.Rng.Uint64N(2)
			switch c.Rng.IntN(4) {
			case 0:
				a, b = 1, lim-1
			case 1:
				a, b = c.Rng.Uint64()&lim, c.Rng.Uint64()&lim
			}
			if a > b {
				a, b = b, a
			}
			m.claimRange(c, t, a, b, 1000*k)
			r.Max("longest_decomposition", int64(len(w.decompose(a, b))))
			s := fmt.Sprintf("%d-%d", b+1, a)
			c.Check(t.ClaimRange(s, nil) != nil, "the reversed range %s was claimed", s)
			if k == 4 && c.Rng.IntN(2) == 0 {
				m.drop(c, t, eqSel("a", "x"))
			}
			m.checkAll(c, "", t)
		}
		c.Nontrivial()
	})
}

func largeC16(r *Run) {
	r.Each("large", r.N(9, 200), func(c *Case, i int) {
		w := widths[i%3]
		m := newTreeModel(w, w.B)
		t := m.newTree(c)
		ps := m.fillTree(c, t, 800+c.Rng.IntN(1500), uidLabel)
		// a chain of nested prefixes
		v := ps[c.Rng.IntN(len(ps))].v
		for l := uint8(0); l <= w.B; l++ {
			p := pk{v & w.mask(l), l}
			c.Check(t.ClaimID(m.id(c, p), nil) == nil, "ClaimID(%v)", p)
			m.m[p] = nil
		}
		c.Op("%d entries", len(m.m))
		ks := m.sorted()
		for k := 0; k < 80; k++ {
			q := pk{0, 0}
			switch c.Rng.IntN(4) {
			case 0:
				q = ks[c.Rng.IntN(len(ks))]
			case 1:
				q = pk{v, uint8(c.Rng.IntN(int(w.B) + 1))}
				q.v &= w.mask(q.l)
			case 2:
				q = ks[c.Rng.IntN(len(ks))]
				q.l = uint8(c.Rng.IntN(int(q.l) + 1))
				q.v &= w.mask(q.l)
			}
			a, b := m.checkRel(c, t, q)
			r.Max("most_children", int64(a))
			r.Max("most_parents", int64(b))
			r.Count("queries", 2)
		}
		m.checkAll(c, "after queries ", t)
		c.Nontrivial()
	})
}

func largeC17(r *Run) {
	r.Each("large", r.N(24, 400), func(c *Case, i int) {
		w := widths[i%3]
		m := newTreeModel(w, w.B)
		if c.Rng.IntN(3) == 0 {
			m.L = uint8(12 + c.Rng.IntN(int(w.B)-11))
		}
		t := m.newTree(c)
		subset, most := 0, 0
		n := 500 + c.Rng.IntN(1500)
		for round := 0; round < 6; round++ {
			m.fillTree(c, t, n, func(k int) labels.Set { return randLabels(c, k+100000*round) })
			ks := m.sorted()
			for q := 0; q < 3; q++ {
				sel := randSelector(c)
				var want []pk
				for _, p := range ks {
					if sel.Matches(m.m[p]) {
						want = append(want, p)
					}
				}
				m.checkList(c, fmt.Sprintf("GetByLabel(%s)", sel), t.GetByLabel(sel), want)
			}
			sel := randSelector(c)
			for sel.Empty() { // releasing everything is left to the other section
				sel = randSelector(c)
			}
			x := m.drop(c, t, sel)
			if x > 0 && x < len(ks) {
				subset++
				most = max(most, x)
			}
			m.checkList(c, fmt.Sprintf("GetByLabel(%s) after ReleaseByLabel", sel), t.GetByLabel(sel), nil)
			m.checkAll(c, "", t)
			c.Check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
		}
		if subset > 0 {
			c.Nontrivial()
		}
		r.Count("proper_subset_releases", int64(subset))
		r.Max("most_released_at_once", int64(most))
	})
}

func largeC18(r *Run) {
	r.Each("large", r.N(9, 200), func(c *Case, i int) {
		w := widths[i%3]
		m := newTreeModel(w, w.B)
		t := m.newTree(c)
		m.fillTree(c, t, 1000+c.Rng.IntN(2000), uidLabel)
		m.drop(c, t, eqSel("c", "1")) // freed places for both sides to reuse
		trees, models := []gtree.GTree{t}, []*treeModel{m}
		for k := 0; k < 10; k++ {
			x := c.Rng.IntN(len(trees))
			if len(trees) < 4 {
				c.Op("Clone of #%d with %d entries", x, len(models[x].m))
				trees = append(trees, trees[x].Clone())
				models = append(models, models[x].clone())
			}
			switch x = c.Rng.IntN(len(trees)); c.Rng.IntN(3) {
			case 0:
				models[x].drop(c, trees[x], eqSel("c", fmt.Sprint(c.Rng.IntN(3))))
			case 1:
				models[x].fillTree(c, trees[x], len(models[x].m)+200+c.Rng.IntN(800), func(n int) labels.Set { return uidLabel(n + 10000*k) })
				c.Op("#%d filled to %d", x, len(models[x].m))
			default:
				for _, p := range models[x].sorted() {
					if c.Rng.IntN(4) == 0 {
						c.Check(trees[x].ReleaseID(w.NewID(p.v, p.l)) == nil, "ReleaseID(%v)", p)
						delete(models[x].m, p)
					}
				}
				c.Op("#%d reduced to %d", x, len(models[x].m))
			}
			for y := range trees {
				models[y].checkAll(c, fmt.Sprintf("after a step on #%d, #%d ", x, y), trees[y])
			}
		}
		c.Nontrivial()
	})
}

func largeC25(r *Run) {
	r.Each("huge", 3, func(c *Case, i int) {
		w := widths[i]
		t := tree.NewTree[gval]("g", w.LeftBit, w.B)
		m := map[pk][]gval{}
		check := func(what string) {
			ks := make([]pk, 0, len(m))
			for k := range m {
				ks = append(ks, k)
			}
			sortPks(ks)
			x := 0
			for it := t.Iterate(); it.Next(); x++ {
				vs := it.Vals()
				if x >= len(ks) || canon(vs) != canon(m[ks[x]]) {
					c.Fail("%s: iteration position %d of %d holds [%s]", what, x, len(ks), canon(vs))
				}
			}
			c.Check(x == len(ks), "%s: iteration visits %d prefixes, want %d", what, x, len(ks))
			c.Beat()
		}
		at, uid := c.Rng.Uint64()&w.Max, 0
		fill := func(n int) {
			for len(m) < n {
				p := pk{at & w.Max, w.B}
				at++
				if c.Rng.IntN(4) == 0 || w.B == 16 && c.Rng.IntN(2) == 0 {
					p.l = uint8(c.Rng.IntN(int(w.B) + 1))
					p.v = c.Rng.Uint64() & w.mask(p.l)
				}
				if len(m[p]) > 2 {
					continue
				}
				v := gval{p, uid % 3, uid}
				uid++
				ok, cnt := t.Add(w.NewID(p.v, p.l), v, nil)
				m[p] = append(m[p], v)
				c.Beat()
				if !ok || cnt != len(m[p]) {
					c.Fail("Add at %v returned %v, %d, want %d values", p, ok, cnt, len(m[p]))
				}
			}
		}
		cut := func() {
			for p, vs := range m {
				if (p.v^uint64(p.l))%3 == 0 {
					n := t.Delete(w.NewID(p.v, p.l), func(a, b gval) bool { return true }, vs[0])
					c.Beat()
					if n != len(vs) {
						c.Fail("Delete at %v removed %d values, want %d", p, n, len(vs))
					}
					delete(m, p)
				}
			}
		}
		fill(72000)
		c.Op("width %d: %d prefixes", w.B, len(m))
		check("after filling")
		cut()
		check("after deleting")
		fill(75000)
		check("after filling again")
		cl := t.Clone()
		cut()
		check("after deleting again")
		n := 0
		for it := cl.Iterate(); it.Next(); n++ {
		}
		c.Check(n >= 75000, "the clone iterates %d prefixes, want at least 75000", n)
		r.Max("largest_content", int64(n))
		c.Nontrivial()
	})
}
