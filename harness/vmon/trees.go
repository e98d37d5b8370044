package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"k8s.io/apimachinery/pkg/labels"
)

func init() {
	checks["C13"] = checkC13
	checks["C14"] = checkC14
	checks["C15"] = checkC15
	checks["C16"] = checkC16
	checks["C17"] = checkC17
	checks["C18"] = checkC18
}

// treeModel is the reference for a prefix tree: the claimed prefixes with their labels.
type treeModel struct {
	w *Width
	L uint8
	m map[pk]labels.Set
}

func newTreeModel(w *Width, L uint8) *treeModel {
	return &treeModel{w: w, L: L, m: map[pk]labels.Set{}}
}
func (m *treeModel) clone() *treeModel {
	n := newTreeModel(m.w, m.L)
	for k, v := range m.m {
		n.m[k] = v
	}
	return n
}
func (m *treeModel) limit() uint64 { return lowBits(m.L) }

// lowBits is 2^n - 1.
func lowBits(n uint8) uint64 {
	if n == 0 {
		return 0
	}
	return ^uint64(0) >> (64 - uint(n))
}

func (m *treeModel) sorted() []pk {
	ks := make([]pk, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	sortPks(ks)
	return ks
}

// cover is the set of ids of [0,2^L) inside claimed prefixes.
func (m *treeModel) cover() ivset {
	ivs := make([]iv, 0, len(m.m))
	for p := range m.m {
		x := m.w.iv(p)
		if x.lo > m.limit() {
			continue
		}
		x.hi = min(x.hi, m.limit())
		ivs = append(ivs, x)
	}
	sort.Slice(ivs, func(i, j int) bool { return ivs[i].lo < ivs[j].lo })
	var out ivset
	for _, x := range ivs {
		if n := len(out); n > 0 && (x.lo <= out[n-1].hi || out[n-1].hi+1 == x.lo) {
			out[n-1].hi = max(out[n-1].hi, x.hi)
		} else {
			out = append(out, x)
		}
	}
	return out
}

func (m *treeModel) exhausted() bool {
	c := m.cover()
	return len(c) == 1 && c[0] == iv{0, m.limit()}
}

// id builds the id for a prefix, as a value or in the pointer form that ranges list.
func (m *treeModel) id(c *Case, p pk) tree.ID {
	id := m.w.NewID(p.v, p.l)
	if c.Rng.IntN(4) == 0 && p.l <= m.w.B {
		if ids := m.w.RangeOf(id).IDs(); len(ids) == 1 && ids[0].ID() == p.v && ids[0].Length() == p.l {
			return ids[0]
		}
	}
	return id
}

// pool makes a set of related prefixes (splits, siblings, nested, adjacent) with values inside the tree.
func (m *treeModel) pool(c *Case, n int) []pk {
	w := m.w
	lim := m.limit()
	seen := map[pk]bool{}
	var out []pk
	add := func(v uint64, l uint8) {
		if l > w.B {
			l = w.B
		}
		p := pk{v & lim & w.mask(l), l}
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	var bases []uint64
	for i := 0; i < 1+c.Rng.IntN(3); i++ {
		switch c.Rng.IntN(4) {
		case 0:
			bases = append(bases, 0)
		case 1:
			bases = append(bases, lim)
		default:
			bases = append(bases, c.Rng.Uint64()&lim)
		}
	}
	top := w.B - m.L // prefixes shorter than this have value 0
	depth := uint64(m.L) + 1
	for tries := 0; len(out) < n && tries < 20*n; tries++ {
		v := bases[c.Rng.IntN(len(bases))]
		l := top + uint8(c.Rng.Uint64N(depth))
		if c.Rng.IntN(6) == 0 {
			l = w.B
		}
		if c.Rng.IntN(20) == 0 {
			l = uint8(c.Rng.IntN(int(w.B) + 1))
		}
		switch c.Rng.IntN(5) {
		case 0: // sibling at that level
			if l > 0 {
				v ^= w.span(l) + 1
			}
		case 1: // flip one random bit
			v ^= uint64(1) << c.Rng.IntN(int(w.B))
		case 2: // near neighbours
			v += c.Rng.Uint64N(5)
		}
		add(v, l)
		if c.Rng.IntN(3) == 0 && len(out) > 0 { // a neighbour length of an existing one
			p := out[c.Rng.IntN(len(out))]
			switch c.Rng.IntN(3) {
			case 0:
				if p.l > 0 {
					add(p.v, p.l-1)
				}
			case 1:
				if p.l < w.B {
					add(p.v, p.l+1)
					add(p.v|(w.span(p.l+1)+1), p.l+1)
				}
			case 2:
				add(p.v, w.B)
				add(p.v|w.span(p.l), w.B)
			}
		}
	}
	return out
}

func randTree(c *Case, i int) *treeModel {
	w := widths[i%3]
	var L uint8
	switch c.Rng.IntN(4) {
	case 0:
		L = w.B
	case 1:
		L = uint8(c.Rng.IntN(int(w.B) + 1))
	default:
		L = uint8(1 + c.Rng.IntN(6))
	}
	return newTreeModel(w, L)
}

func (m *treeModel) newTree(c *Case) gtree.GTree {
	t, err := m.w.NewTree("t", m.L)
	c.Op("tree%d.New(%d) = %v", m.w.B, m.L, err)
	c.Check(err == nil && t != nil, "New(%d) failed: %v", m.L, err)
	return t
}

func entriesStr(es []tree.Entry) string {
	var b []string
	for i, e := range es {
		if i == 24 {
			b = append(b, fmt.Sprintf("... (%d)", len(es)))
			break
		}
		b = append(b, fmt.Sprintf("%d/%d", e.ID().ID(), e.ID().Length()))
	}
	return "[" + strings.Join(b, " ") + "]"
}

// checkList compares a listing with the expected prefixes, in order, with current labels.
func (m *treeModel) checkList(c *Case, what string, got []tree.Entry, want []pk) {
	c.R.beats.Add(1)
	if len(got) != len(want) {
		c.Fail("%s lists %s, want %v", what, entriesStr(got), want)
	}
	for i, e := range got {
		p := want[i]
		if e == nil {
			c.Fail("%s: nil entry at position %d", what, i)
		}
		if e.ID().ID() != p.v || e.ID().Length() != p.l {
			c.Fail("%s lists %s, want %v", what, entriesStr(got), want)
		}
		if lkey(e.Labels()) != lkey(m.m[p]) {
			c.Fail("%s: %v has labels %v, want %v", what, p, e.Labels(), m.m[p])
		}
	}
	own(c, what, got)
}

// own: a returned list belongs to the caller. Some are kept, to see that later operations leave them alone; some are
// overwritten, which must not reach the table or tree.
func own(c *Case, what string, got []tree.Entry) {
	switch v := c.Rng.IntN(max(24, len(got)/4)); {
	case len(got) == 0 || v > 2 || strings.HasPrefix(what, "Iterate"):
	case v < 2:
		c.Hold(what, func() string {
			var b strings.Builder
			for _, e := range got {
				fmt.Fprintf(&b, "%d/%d %s, ", e.ID().ID(), e.ID().Length(), lkey(e.Labels()))
			}
			return b.String()
		})
	default:
		for i := range got {
			got[i] = nil
		}
	}
}

func collect(it *gtree.GTreeIterator, max int) []tree.Entry {
	var out []tree.Entry
	for it.Next() {
		out = append(out, it.Entry())
		if len(out) > max {
			break
		}
	}
	return out
}

func (m *treeModel) checkAll(c *Case, who string, t gtree.GTree) {
	ks := m.sorted()
	m.checkList(c, who+"GetAll", t.GetAll(), ks)
}

func (m *treeModel) checkState(c *Case, t gtree.GTree, pool []pk) {
	ks := m.sorted()
	m.checkList(c, "GetAll", t.GetAll(), ks)
	m.checkList(c, "Iterate", collect(t.Iterate(), len(ks)+5), ks)
	c.Check(t.Size() == len(ks), "Size() = %d, want %d", t.Size(), len(ks))
	probe := func(p pk) {
		l, cl := m.m[p]
		e, err := t.Get(m.id(c, p))
		if (err == nil) != cl {
			c.Fail("Get(%v) error %v, claimed: %v", p, err, cl)
		}
		if cl && (e == nil || e.ID().ID() != p.v || e.ID().Length() != p.l || lkey(e.Labels()) != lkey(l)) {
			c.Fail("Get(%v) = %v, want labels %v", p, e, l)
		}
	}
	for _, p := range ks {
		probe(p)
	}
	for _, p := range pool {
		probe(p)
	}
}

type opStats struct{ claim, overwrite, release, noop, free, exhausted, rng, bylabel, reject int }

// mutate applies one random valid operation; uid makes the labels of the write unique.
func (m *treeModel) mutate(c *Case, t gtree.GTree, pool []pk, uid int, st *opStats) {
	w := m.w
	p := pool[c.Rng.IntN(len(pool))]
	l := randLabels(c, uid)
	switch op := c.Rng.IntN(20); {
	case op < 8:
		upd := c.Rng.IntN(3) == 0
		var err error
		if upd {
			err = t.Update(m.id(c, p), cloneLabels(l))
		} else {
			err = t.ClaimID(m.id(c, p), cloneLabels(l))
		}
		c.Op("claim/update %v %v = %v", p, l, err)
		c.Check(err == nil, "claim or update of %v in a tree of %d bits failed: %v", p, m.L, err)
		if _, ok := m.m[p]; ok {
			st.overwrite++
		} else {
			st.claim++
		}
		m.m[p] = l
	case op < 15:
		if len(m.m) > 0 && c.Rng.IntN(3) > 0 {
			ks := m.sorted()
			p = ks[c.Rng.IntN(len(ks))]
		}
		err := t.ReleaseID(m.id(c, p))
		c.Op("ReleaseID(%v) = %v", p, err)
		c.Check(err == nil, "ReleaseID(%v) failed: %v", p, err)
		if _, ok := m.m[p]; ok {
			st.release++
		} else {
			st.noop++
		}
		delete(m.m, p)
	case op < 17:
		ex := m.exhausted()
		e, err := t.ClaimFree(cloneLabels(l))
		c.Op("ClaimFree(%v) = %v, %v", l, e, err)
		c.Check((err == nil) == !ex, "ClaimFree error %v, free id exists: %v", err, !ex)
		if err != nil {
			st.exhausted++
			return
		}
		p := pk{e.ID().ID(), e.ID().Length()}
		c.Check(p.l == w.B && p.v <= m.limit() && !m.cover().has(p.v), "ClaimFree returned %v (tree of %d bits, claimed ids %v)", p, m.L, m.cover())
		m.m[p] = l
		st.free++
	case op < 18:
		a := p.v
		b := min(m.limit(), a+c.Rng.Uint64N(12))
		if b < a {
			b = m.limit()
		}
		st.rng++
		m.claimRange(c, t, a, b, uid)
	default:
		sel := labels.SelectorFromSet(labels.Set{labelKeys[c.Rng.IntN(len(labelKeys))]: labelVals[c.Rng.IntN(len(labelVals))]})
		n := 0
		for q, ql := range m.m {
			if sel.Matches(ql) {
				delete(m.m, q)
				n++
			}
		}
		err := t.ReleaseByLabel(sel)
		c.Op("ReleaseByLabel(%s) = %v (%d match)", sel, err, n)
		c.Check(err == nil, "ReleaseByLabel failed: %v", err)
		st.bylabel += n
	}
}

// claimRange claims [a,b] and folds what the tree reports for it into the model, after checking that it is exactly a
// disjoint cover of the range and that every other entry is as before. The labels are unique, or those of other entries.
func (m *treeModel) claimRange(c *Case, t gtree.GTree, a, b uint64, uid int) {
	w := m.w
	l := labels.Set{"uid": fmt.Sprintf("range%d", uid), "a": "x"}
	switch v := c.Rng.IntN(10); {
	case v < 2:
		l = cloneLabels(plainLabels[c.Rng.IntN(3)])
	case v == 2:
		l = nil
	case v == 3 && len(m.m) > 0:
		ks := m.sorted()
		l = cloneLabels(m.m[ks[c.Rng.IntN(len(ks))]])
	}
	key := lkey(l)
	s := fmt.Sprintf("%d-%d", a, b)
	err := t.ClaimRange(s, cloneLabels(l))
	c.Op("ClaimRange(%s,%v) = %v", s, l, err)
	c.Check(err == nil, "ClaimRange(%s) in a tree of %d bits failed: %v", s, m.L, err)
	// What the range consists of: entries that are new or have changed, and entries that had these labels before where
	// they fit in between.
	var got []tree.Entry
	var fresh []iv
	had := map[uint64][]iv{}
	for _, e := range t.GetAll() {
		if lkey(e.Labels()) != key {
			continue
		}
		p := pk{e.ID().ID(), e.ID().Length()}
		if p.l > w.B || w.iv(p).lo != p.v {
			c.Fail("ClaimRange(%s) stored the entry %v", s, p)
		}
		x := w.iv(p)
		was, cl := m.m[p]
		if cl && lkey(was) == key {
			if a <= x.lo && x.hi <= b {
				had[x.lo] = append(had[x.lo], x)
			}
			continue
		}
		got = append(got, e)
		fresh = append(fresh, x)
		m.m[p] = l
	}
	next, done := a, false
	upTo := func(lo uint64) bool { // from next up to but without lo, by entries that were there; widest ones first
		seen := map[uint64]bool{}
		var try func(at uint64) bool
		try = func(at uint64) bool {
			if at == lo {
				return true
			}
			if seen[at] || at > lo {
				return false
			}
			seen[at] = true
			for _, x := range had[at] {
				if x.hi < lo && try(x.hi+1) {
					return true
				}
			}
			return false
		}
		return try(next)
	}
	for _, x := range fresh {
		if done || x.lo < next || x.hi > b || !upTo(x.lo) {
			c.Fail("ClaimRange(%s) stored %s ...: not a disjoint cover of exactly the range", s, entriesStr(got))
		}
		done = x.hi == b
		next = x.hi + 1
	}
	if !done {
		done = b < ^uint64(0) && upTo(b+1)
		for lo, xs := range had {
			for _, x := range xs {
				if !done && x.hi == b && lo >= next && upTo(lo) {
					done = true
				}
			}
		}
	}
	c.Check(done, "ClaimRange(%s) stored %s: does not cover the range", s, entriesStr(got))
	m.checkAll(c, "after ClaimRange("+s+") ", t)
}

// rejects: ids and ranges that the tree must refuse without any effect.
func (m *treeModel) rejects(c *Case, t gtree.GTree, st *opStats) {
	w := m.w
	var id tree.ID
	switch c.Rng.IntN(4) {
	case 0: // too long a prefix
		id = w.NewID(c.Rng.Uint64()&m.limit(), w.B+1+uint8(c.Rng.IntN(int(255-w.B))))
	case 1: // beyond the tree, of another width
		if m.L == 64 {
			return
		}
		v := m.limit() + 1 + c.Rng.Uint64N(3)
		if c.Rng.IntN(2) == 0 {
			v = m.limit() + 1 + c.Rng.Uint64N(^m.limit())
		}
		id = id64.NewID(v, w.B)
	default:
		if m.L == w.B {
			return
		}
		v := m.limit() + 1
		if c.Rng.IntN(2) == 0 {
			v = m.limit() + 1 + c.Rng.Uint64N(w.Max-m.limit())
		}
		l := w.B - uint8(min(bits.TrailingZeros64(v), int(w.B)))
		if c.Rng.IntN(2) == 0 {
			l = w.B
		}
		id = w.NewID(v, l)
	}
	e1 := t.ClaimID(id, labels.Set{"bad": "1"})
	e2 := t.Update(id, labels.Set{"bad": "2"})
	e3 := t.ReleaseID(id)
	c.Op("rejects %v: %v, %v, %v", id, e1 != nil, e2 != nil, e3 != nil)
	c.Check(e1 != nil, "ClaimID(%v) in a tree of %d bits succeeded", id, m.L)
	c.Check(e2 != nil, "Update(%v) in a tree of %d bits succeeded", id, m.L)
	c.Check(e3 != nil, "ReleaseID(%v) in a tree of %d bits succeeded", id, m.L)
	_, err := t.Get(id)
	c.Check(err != nil, "Get(%v) in a tree of %d bits found an entry", id, m.L)
	st.reject++
}

func checkC13(r *Run) {
	r.rule = "a case is one tree (16, 32 or 64 bit ids, any bit size) with a history of operations over a pool of related prefixes (nested, siblings, splits, full-length; value and pointer ids); after every step GetAll, Iterate, Size and Get of all pool and claimed prefixes are compared with the reference map. walk: long random walks over all 15 prefixes of 3 levels, so that every tree shape of that size and every transition between shapes occurs. Non-trivial: the history claimed, overwrote and released entries."
	r.Each("history", r.N(1500, 40000), func(c *Case, i int) {
		m := randTree(c, i)
		t := m.newTree(c)
		pool := m.pool(c, 4+c.Rng.IntN(24))
		var st opStats
		for k := 0; k < 60; k++ {
			if c.Rng.IntN(8) == 0 {
				m.rejects(c, t, &st)
			}
			m.mutate(c, t, pool, k, &st)
			m.checkState(c, t, pool)
		}
		if st.claim > 1 && st.overwrite+st.rng > 0 && st.release > 0 {
			c.Nontrivial()
		}
		r.Count("rejected_ids", int64(st.reject))
		r.Count("entries_released", int64(st.release+st.bylabel))
		r.Max("largest_content", int64(len(m.m)))
	})
	// every prefix of the top three levels: 2^15 contents
	shapes := make([]map[uint32]struct{}, 3)
	for i := range shapes {
		shapes[i] = map[uint32]struct{}{}
	}
	r.Each("walk", r.N(60, 600), func(c *Case, i int) {
		w := widths[i%3]
		m := newTreeModel(w, w.B)
		off := uint8(0)
		base := uint64(0)
		if i/3%2 == 1 { // the same shapes deep in the tree
			off = uint8(c.Rng.IntN(int(w.B) - 2))
			base = c.Rng.Uint64() & w.mask(off)
		}
		t := m.newTree(c)
		var pool []pk
		for l := uint8(0); l <= 3; l++ {
			for v := uint64(0); v < 1<<l; v++ {
				pool = append(pool, pk{base | (v << (w.B - l - off) & w.Max), off + l})
			}
		}
		for k := range pool {
			if pool[k].l == 0 {
				pool[k].v = 0
			}
		}
		content := uint32(0)
		seen := map[uint32]struct{}{}
		bias := 1 + c.Rng.IntN(9)
		for k := 0; k < 1500; k++ {
			x := c.Rng.IntN(len(pool))
			p := pool[x]
			if c.Rng.IntN(10) < bias {
				l := labels.Set{"n": fmt.Sprint(k)}
				c.Check(t.ClaimID(m.id(c, p), l) == nil, "ClaimID(%v)", p)
				m.m[p] = l
				content |= 1 << x
				c.Op("ClaimID(%v)", p)
			} else {
				c.Check(t.ReleaseID(m.id(c, p)) == nil, "ReleaseID(%v)", p)
				delete(m.m, p)
				content &^= 1 << x
				c.Op("ReleaseID(%v)", p)
			}
			seen[content] = struct{}{}
			ks := m.sorted()
			m.checkList(c, "GetAll", t.GetAll(), ks)
			if k%150 == 0 {
				bias = 1 + c.Rng.IntN(9)
				m.checkState(c, t, pool)
			}
		}
		c.Nontrivial()
		r.mu.Lock()
		for s := range seen {
			shapes[i%3][s] = struct{}{}
		}
		r.mu.Unlock()
	})
	for i, s := range shapes {
		r.Count(fmt.Sprintf("distinct_contents_visited_width%d", widths[i].B), int64(len(s)))
	}
	// large trees
	r.Each("bulk", r.N(9, 60), func(c *Case, i int) {
		w := widths[i%3]
		m := newTreeModel(w, w.B)
		t := m.newTree(c)
		n := 1500
		pool := m.pool(c, n)
		for k := 0; k < n; k++ {
			p := pk{c.Rng.Uint64() & w.Max, w.B}
			if c.Rng.IntN(3) == 0 {
				p.l = uint8(c.Rng.IntN(int(w.B) + 1))
				p.v &= w.mask(p.l)
			}
			pool = append(pool, p)
		}
		for k := 0; k < 4*n; k++ {
			p := pool[c.Rng.IntN(len(pool))]
			_, cl := m.m[p]
			if !cl || c.Rng.IntN(5) == 0 {
				l := labels.Set{"n": fmt.Sprint(k)}
				c.Check(t.ClaimID(m.id(c, p), l) == nil, "ClaimID(%v)", p)
				m.m[p] = l
			} else if c.Rng.IntN(2) == 0 {
				c.Check(t.ReleaseID(m.id(c, p)) == nil, "ReleaseID(%v)", p)
				delete(m.m, p)
			}
			c.Beat()
			if k%97 == 0 {
				m.checkList(c, "GetAll", t.GetAll(), m.sorted())
			}
		}
		m.checkList(c, "GetAll", t.GetAll(), m.sorted())
		r.Max("largest_content", int64(len(m.m)))
		c.Op("%d entries left", len(m.m))
		// drain
		ks := m.sorted()
		c.Rng.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
		for k, p := range ks {
			c.Check(t.ReleaseID(m.id(c, p)) == nil, "ReleaseID(%v)", p)
			delete(m.m, p)
			c.Beat()
			if k%97 == 0 || len(m.m) < 12 {
				m.checkList(c, "GetAll", t.GetAll(), m.sorted())
			}
		}
		c.Check(t.Size() == 0, "Size() = %d after releasing everything", t.Size())
		c.Nontrivial()
	})
	r.Each("bounds", 3, func(c *Case, i int) {
		w := widths[i]
		for l := int(w.B) + 1; l <= 255; l++ {
			t, err := w.NewTree("t", uint8(l))
			c.Op("New(%d) = %v", l, err)
			c.Check(err != nil && t == nil, "tree%d.New accepted the bit size %d", w.B, l)
		}
		for l := 0; l <= int(w.B); l++ {
			m := newTreeModel(w, uint8(l))
			t := m.newTree(c)
			lim := m.limit()
			for _, v := range []uint64{0, lim, lim / 2, lim + 1, w.Max, lim + 2} {
				ok := v <= lim && v <= w.Max
				if v > w.Max {
					continue
				}
				p := pk{v, w.B}
				err := t.ClaimID(w.NewID(v, w.B), labels.Set{"v": fmt.Sprint(v)})
				c.Op("tree of %d bits: ClaimID(%v) = %v", l, p, err)
				c.Check((err == nil) == ok, "tree of %d bits: ClaimID(%v) error %v", l, p, err)
				if ok {
					m.m[p] = labels.Set{"v": fmt.Sprint(v)}
				}
			}
			m.checkState(c, t, nil)
		}
		c.Nontrivial()
	})
	largeC13(r)
}

func (m *treeModel) claimFree(c *Case, t gtree.GTree, uid int) (pk, bool) {
	w := m.w
	l := randLabels(c, uid)
	cov := m.cover()
	full := m.exhausted()
	e, err := t.ClaimFree(cloneLabels(l))
	c.Op("ClaimFree(%v) = %v, %v", l, e, err)
	c.Check((err == nil) == !full, "ClaimFree error %v in a tree of %d bits with claimed ids %v", err, m.L, cov)
	if err != nil {
		m.checkAll(c, "after a failed ClaimFree ", t)
		return pk{}, false
	}
	c.Check(e != nil, "ClaimFree returned no entry and no error")
	p := pk{e.ID().ID(), e.ID().Length()}
	c.Check(p.l == w.B, "ClaimFree returned %v, not a full-length id", p)
	c.Check(p.v <= m.limit(), "ClaimFree returned %v, outside a tree of %d bits", p, m.L)
	c.Check(!cov.has(p.v), "ClaimFree returned %v, which is claimed or inside a claimed prefix: %v", p, cov)
	c.Check(lkey(e.Labels()) == lkey(l), "ClaimFree returned labels %v, want %v", e.Labels(), l)
	m.m[p] = l
	return p, true
}

func checkC14(r *Run) {
	r.rule = "a case is one tree with random claimed prefixes and ids; ClaimFree results are checked against the exact set of claimed or covered ids. history: random claims, releases and ClaimFree. fill: ClaimFree until it fails on small trees, then releases and reallocation. hole: everything but a few ids claimed in trees of any size; ClaimFree must find exactly those. Non-trivial: ClaimFree was called with some ids claimed or covered, and the outcome list contains an exhausted call or a reallocation of a released id."
	r.Each("history", r.N(2400, 40000), func(c *Case, i int) {
		m := randTree(c, i)
		t := m.newTree(c)
		pool := m.pool(c, 3+c.Rng.IntN(12))
		released := map[uint64]bool{}
		nt, some := false, false
		for k := 0; k < 40; k++ {
			switch c.Rng.IntN(6) {
			case 0:
				p := pool[c.Rng.IntN(len(pool))]
				l := randLabels(c, k)
				c.Op("ClaimID(%v)", p)
				c.Check(t.ClaimID(m.id(c, p), cloneLabels(l)) == nil, "ClaimID(%v)", p)
				m.m[p] = l
			case 1:
				if ks := m.sorted(); len(ks) > 0 {
					p := ks[c.Rng.IntN(len(ks))]
					c.Op("ReleaseID(%v)", p)
					c.Check(t.ReleaseID(m.id(c, p)) == nil, "ReleaseID(%v)", p)
					delete(m.m, p)
					released[p.v] = true
				}
			default:
				some = some || len(m.m) > 0
				p, ok := m.claimFree(c, t, k)
				nt = nt || !ok || released[p.v]
				r.Count(fmt.Sprintf("claimfree_ok_%v", ok), 1)
			}
			m.checkAll(c, "", t)
		}
		if nt && some {
			c.Nontrivial()
		}
	})
	r.Each("fill", r.N(90, 900), func(c *Case, i int) {
		w := widths[i%3]
		m := newTreeModel(w, uint8(i/3%8))
		t := m.newTree(c)
		pre := m.pool(c, c.Rng.IntN(5))
		for k, p := range pre {
			if p.l < w.B-m.L && c.Rng.IntN(3) > 0 {
				continue
			}
			l := labels.Set{"pre": fmt.Sprint(k)}
			c.Op("ClaimID(%v)", p)
			c.Check(t.ClaimID(m.id(c, p), l) == nil, "ClaimID(%v)", p)
			m.m[p] = l
		}
		for k := 0; ; k++ {
			_, ok := m.claimFree(c, t, k)
			m.checkAll(c, "", t)
			if !ok {
				break
			}
			c.Check(k <= 300, "ClaimFree did not fail after %d ids of a tree of %d bits", k, m.L)
		}
		for k := 0; k < 6; k++ {
			ks := m.sorted()
			for x := 1 + c.Rng.IntN(3); x > 0 && len(ks) > 0; x-- {
				p := ks[c.Rng.IntN(len(ks))]
				c.Op("ReleaseID(%v)", p)
				c.Check(t.ReleaseID(m.id(c, p)) == nil, "ReleaseID(%v)", p)
				delete(m.m, p)
			}
			for y := 0; y < 4; y++ {
				m.claimFree(c, t, 1000+k)
			}
			m.checkAll(c, "", t)
		}
		c.Nontrivial()
	})
	r.Each("hole", r.N(600, 9000), func(c *Case, i int) {
		w := widths[i%3]
		m := newTreeModel(w, uint8(1+c.Rng.IntN(int(w.B))))
		if c.Rng.IntN(3) == 0 {
			m.L = w.B
		}
		t := m.newTree(c)
		lim := m.limit()
		// keep up to 4 holes
		holes := map[uint64]bool{}
		for k := 1 + c.Rng.IntN(4); k > 0; k-- {
			v := c.Rng.Uint64() & lim
			switch c.Rng.IntN(5) {
			case 0:
				v = lim
			case 1:
				v = 0
			case 2:
				for h := range holes {
					v = (h + 1) & lim
				}
			}
			holes[v] = true
		}
		free := ivset{{0, lim}}
		for h := range holes {
			free = free.remove(iv{h, h})
		}
		for _, x := range free {
			for _, p := range w.decompose(x.lo, x.hi) {
				c.Check(t.ClaimID(m.id(c, p), nil) == nil, "ClaimID(%v)", p)
				m.m[p] = nil
				c.Beat()
			}
		}
		c.Op("claimed all of %d bits but %d ids", m.L, len(holes))
		for k := len(holes); k > 0; k-- {
			p, ok := m.claimFree(c, t, k)
			c.Check(ok && holes[p.v], "ClaimFree = %v, want one of %v", p, holes)
		}
		m.claimFree(c, t, 99)
		// a released block becomes allocatable
		ks := m.sorted()
		p := ks[c.Rng.IntN(len(ks))]
		c.Op("ReleaseID(%v)", p)
		c.Check(t.ReleaseID(m.id(c, p)) == nil, "ReleaseID(%v)", p)
		delete(m.m, p)
		q, ok := m.claimFree(c, t, 100)
		c.Check(ok && w.iv(p).lo <= q.v && q.v <= w.iv(p).hi, "after releasing %v ClaimFree = %v, %v", p, q, ok)
		c.Nontrivial()
	})
	largeC14(r)
	hugeC14(r)
}

var malformed = []string{"", "-", "1", "1-", "-1", "a-b", "1-b", "a-1", "1 - 2", " 1-2", "1-2 ", "1-2-3", "1--2", "--", "0x1-0x2", "1_0-2_0", "+1-2", "1-+2", "1.0-2", "-1-2", "1,2", "1-2,4-5", "\x001-2", "1:2", "1–2", "99999999999999999999-99999999999999999999", "0-18446744073709551616", "18446744073709551616-18446744073709551617"}

func checkC15(r *Run) {
	r.rule = "a case is one tree with random content and 12 ClaimRange calls: ranges inside the tree (random, aligned, single id, whole tree, touching existing entries), reversed ones, ones reaching beyond the tree's bit size, and malformed strings. After each call the complete listing is compared: a success must have added exactly a disjoint cover of the range, an error nothing. Non-trivial: at least one success that decomposed into several prefixes or overwrote an entry, and one rejection."
	r.Each("ranges", r.N(1500, 30000), func(c *Case, i int) {
		m := randTree(c, i)
		w := m.w
		t := m.newTree(c)
		pool := m.pool(c, 2+c.Rng.IntN(10))
		for k, p := range pool {
			l := labels.Set{"pre": fmt.Sprint(k)}
			c.Check(t.ClaimID(m.id(c, p), cloneLabels(l)) == nil, "ClaimID(%v)", p)
			m.m[p] = l
		}
		c.Op("content %v", m.sorted())
		lim := m.limit()
		multi, rej := false, false
		for k := 0; k < 12; k++ {
			var a, b uint64
			switch c.Rng.IntN(7) {
			case 0:
				a, b = 0, lim
			case 1:
				a = c.Rng.Uint64() & lim
				b = a
			case 2:
				p := pool[c.Rng.IntN(len(pool))]
				a, b = p.v, min(lim, p.v|w.span(p.l))
			case 3:
				p := pool[c.Rng.IntN(len(pool))]
				a, b = p.v, p.v
				if a > 0 && c.Rng.IntN(2) == 0 {
					a--
				}
				if b < lim {
					b += 1 + c.Rng.Uint64N(min(9, lim-b))
				}
			default:
				a, b = c.Rng.Uint64()&lim, c.Rng.Uint64()&lim
				if c.Rng.IntN(2) == 0 {
					b = min(lim, a+c.Rng.Uint64N(64))
					if b < a {
						b = a
					}
				}
			}
			if a > b {
				a, b = b, a
			}
			switch c.Rng.IntN(5) {
			case 0: // reversed
				if a == b {
					if b == lim {
						continue
					}
					b++
				}
				s := fmt.Sprintf("%d-%d", b, a)
				err := t.ClaimRange(s, labels.Set{"bad": "1"})
				c.Op("ClaimRange(%s) = %v", s, err)
				c.Check(err != nil, "the reversed range %s was claimed", s)
				rej = true
				m.checkAll(c, "after ClaimRange("+s+") ", t)
			case 1: // beyond the tree
				if m.L == w.B {
					s := malformed[c.Rng.IntN(len(malformed))]
					err := t.ClaimRange(s, labels.Set{"bad": "1"})
					c.Op("ClaimRange(%q) = %v", s, err)
					c.Check(err != nil, "ClaimRange(%q) succeeded", s)
				} else {
					hi := lim + 1
					if c.Rng.IntN(2) == 0 {
						hi += c.Rng.Uint64N(w.Max - lim)
					}
					s := fmt.Sprintf("%d-%d", a, hi)
					if c.Rng.IntN(4) == 0 {
						s = fmt.Sprintf("%d-%d", lim+1, hi)
					}
					err := t.ClaimRange(s, labels.Set{"bad": "1"})
					c.Op("ClaimRange(%s) = %v", s, err)
					c.Check(err != nil, "the range %s was claimed in a tree of %d bits", s, m.L)
				}
				rej = true
				m.checkAll(c, "after a rejected ClaimRange ", t)
			case 2:
				if c.Rng.IntN(2) == 0 {
					s := malformed[c.Rng.IntN(len(malformed))]
					err := t.ClaimRange(s, labels.Set{"bad": "1"})
					c.Op("ClaimRange(%q) = %v", s, err)
					c.Check(err != nil, "ClaimRange(%q) succeeded", s)
					m.checkAll(c, "after a rejected ClaimRange ", t)
					rej = true
					continue
				}
				fallthrough
			default:
				n := len(m.m)
				m.claimRange(c, t, a, b, k)
				if len(m.m) != n+1 {
					multi = true
				}
				r.Count("ranges_claimed", 1)
			}
		}
		if multi && rej {
			c.Nontrivial()
		}
	})
	// all ranges of small trees
	sizes := 5 // bit sizes 0..4
	if r.thorough() {
		sizes = 7
	}
	r.Each("exhaustive", 3*sizes, func(c *Case, i int) {
		w := widths[i%3]
		L := uint8(i / 3)
		lim := lowBits(L)
		for a := uint64(0); a <= lim; a++ {
			for b := a; b <= lim; b++ {
				m := newTreeModel(w, L)
				t, err := w.NewTree("t", L)
				c.Check(err == nil, "New: %v", err)
				if c.Rng.IntN(2) == 0 {
					p := pk{c.Rng.Uint64() & lim, w.B}
					m.m[p] = labels.Set{"o": "1"}
					c.Check(t.ClaimID(w.NewID(p.v, p.l), labels.Set{"o": "1"}) == nil, "ClaimID")
				}
				m.claimRange(c, t, a, b, 1)
				if b > a {
					s := fmt.Sprintf("%d-%d", b, a)
					c.Check(t.ClaimRange(s, nil) != nil, "the reversed range %s was claimed", s)
					m.checkAll(c, "after reversed ", t)
				}
			}
			if lim < w.Max {
				s := fmt.Sprintf("%d-%d", a, lim+1)
				t, _ := w.NewTree("t", L)
				c.Check(t.ClaimRange(s, nil) != nil && t.Size() == 0, "the range %s was claimed in a tree of %d bits", s, L)
			}
		}
		c.Nontrivial()
	})
	largeC15(r)
	hugeC15(r)
}

func (m *treeModel) checkRel(c *Case, t gtree.GTree, q pk) (int, int) {
	w := m.w
	var ch, pa []pk
	for _, p := range m.sorted() {
		if p != q && w.contains(q, p) {
			ch = append(ch, p)
		}
		if p != q && w.contains(p, q) {
			pa = append(pa, p)
		}
	}
	m.checkList(c, fmt.Sprintf("Children(%v)", q), t.Children(m.id(c, q)), ch)
	m.checkList(c, fmt.Sprintf("Parents(%v)", q), t.Parents(m.id(c, q)), pa)
	return len(ch), len(pa)
}

func checkC16(r *Run) {
	r.rule = "a case is one tree with a random history; at several points Children and Parents of every pool prefix, of random prefixes and of every claimed one are compared with the containment relation computed on the reference, and the listing is compared before and after. Non-trivial: some query had children and some had parents while other entries were outside."
	r.Each("history", r.N(1200, 30000), func(c *Case, i int) {
		m := randTree(c, i)
		w := m.w
		t := m.newTree(c)
		pool := m.pool(c, 6+c.Rng.IntN(20))
		var st opStats
		cs, ps := 0, 0
		for k := 0; k < 40; k++ {
			m.mutate(c, t, pool, k, &st)
			if k%8 != 7 {
				continue
			}
			qs := append(m.sorted(), pool...)
			for x := 0; x < 6; x++ {
				l := uint8(c.Rng.IntN(int(w.B) + 1))
				v := c.Rng.Uint64() & w.Max
				if c.Rng.IntN(2) == 0 {
					v = pool[c.Rng.IntN(len(pool))].v
				}
				qs = append(qs, pk{v & w.mask(l), l})
			}
			qs = append(qs, pk{0, 0}, pk{0, w.B}, pk{w.Max, w.B})
			c.Op("query %d prefixes over %v", len(qs), m.sorted())
			for _, q := range qs {
				a, b := m.checkRel(c, t, q)
				if a > 0 && a < len(m.m) {
					cs++
				}
				if b > 0 && b < len(m.m) {
					ps++
				}
				r.Count("queries", 2)
			}
			m.checkAll(c, "after queries ", t)
		}
		if cs > 0 && ps > 0 {
			c.Nontrivial()
		}
	})
	largeC16(r)
	hugeC16(r)
}

func checkC17(r *Run) {
	r.rule = "a case is one tree with a random history in which GetByLabel is compared with the reference for random selectors after every step and ReleaseByLabel is called with random selectors (equality, sets, existence, ordering, everything, nothing); after it the complete listing must be the reference without the matching entries. Non-trivial: some ReleaseByLabel removed a proper non-empty subset."
	r.Each("history", r.N(1500, 40000), func(c *Case, i int) {
		m := randTree(c, i)
		t := m.newTree(c)
		pool := m.pool(c, 6+c.Rng.IntN(24))
		var st opStats
		subset := 0
		for k := 0; k < 40; k++ {
			m.mutate(c, t, pool, k, &st)
			if c.Rng.IntN(3) > 0 {
				p := pool[c.Rng.IntN(len(pool))]
				l := randLabels(c, 100+k)
				c.Op("ClaimID(%v,%v)", p, l)
				c.Check(t.ClaimID(m.id(c, p), cloneLabels(l)) == nil, "ClaimID(%v)", p)
				m.m[p] = l
			}
			sel := randSelector(c)
			var want []pk
			for _, p := range m.sorted() {
				if sel.Matches(m.m[p]) {
					want = append(want, p)
				}
			}
			m.checkList(c, fmt.Sprintf("GetByLabel(%s)", sel), t.GetByLabel(sel), want)
			if c.Rng.IntN(5) == 0 {
				n := len(m.m)
				err := t.ReleaseByLabel(sel)
				c.Op("ReleaseByLabel(%s) = %v: matches %v", sel, err, want)
				c.Check(err == nil, "ReleaseByLabel(%s) failed: %v", sel, err)
				for _, p := range want {
					delete(m.m, p)
				}
				if len(want) > 0 && len(want) < n {
					subset++
				}
				m.checkList(c, fmt.Sprintf("GetByLabel(%s) after ReleaseByLabel", sel), t.GetByLabel(sel), nil)
			}
			m.checkAll(c, "", t)
			c.Check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
		}
		if subset > 0 {
			c.Nontrivial()
		}
		r.Count("proper_subset_releases", int64(subset))
	})
	largeC17(r)
	hugeC17(r)
}

// same applies one identical random operation to two trees of equal content and compares the outcomes.
func (m *treeModel) same(c *Case, a, b gtree.GTree, pool []pk, uid int) {
	p := pool[c.Rng.IntN(len(pool))]
	l := randLabels(c, uid)
	id := m.id(c, p)
	switch c.Rng.IntN(8) {
	case 0, 1:
		e1, e2 := a.ClaimID(id, cloneLabels(l)), b.ClaimID(id, cloneLabels(l))
		c.Op("both ClaimID(%v) = %v, %v", p, e1, e2)
		c.Check(e1 == nil && e2 == nil, "ClaimID(%v): original %v, clone %v", p, e1, e2)
		m.m[p] = l
	case 2:
		e1, e2 := a.ReleaseID(id), b.ReleaseID(id)
		c.Op("both ReleaseID(%v) = %v, %v", p, e1, e2)
		c.Check(e1 == nil && e2 == nil, "ReleaseID(%v): original %v, clone %v", p, e1, e2)
		delete(m.m, p)
	case 3, 4:
		x, e1 := a.ClaimFree(cloneLabels(l))
		y, e2 := b.ClaimFree(cloneLabels(l))
		c.Op("both ClaimFree = %v %v, %v %v", x, e1, y, e2)
		c.Check((e1 == nil) == (e2 == nil), "ClaimFree: original %v, clone %v", e1, e2)
		if e1 == nil {
			c.Check(x.ID().ID() == y.ID().ID() && x.ID().Length() == y.ID().Length() && x.Equal(y) && y.Equal(x), "ClaimFree: original %v, clone %v", x, y)
			m.m[pk{x.ID().ID(), x.ID().Length()}] = l
		}
	case 5: // limits
		for _, id := range []tree.ID{m.w.NewID(0, m.w.B+1), id64.NewID(m.limit()+1, m.w.B)} {
			if m.limit() == ^uint64(0) && id.Length() == m.w.B {
				continue
			}
			e1, e2 := a.ClaimID(id, l), b.ClaimID(id, l)
			c.Op("both ClaimID(%v) = %v, %v", id, e1 != nil, e2 != nil)
			c.Check((e1 == nil) == (e2 == nil), "ClaimID(%v): original %v, clone %v", id, e1, e2)
		}
		if m.limit() == ^uint64(0) {
			return
		}
		s := fmt.Sprintf("0-%d", m.limit()+1)
		e1, e2 := a.ClaimRange(s, l), b.ClaimRange(s, l)
		c.Check((e1 == nil) == (e2 == nil), "ClaimRange(%s): original %v, clone %v", s, e1, e2)
	case 6:
		s := fmt.Sprintf("%d-%d", p.v, min(m.limit(), max(p.v, p.v+5)))
		u := labels.Set{"uid": fmt.Sprintf("s%d", uid)}
		e1, e2 := a.ClaimRange(s, u), b.ClaimRange(s, u)
		c.Op("both ClaimRange(%s) = %v, %v", s, e1, e2)
		c.Check((e1 == nil) == (e2 == nil), "ClaimRange(%s): original %v, clone %v", s, e1, e2)
		for _, e := range a.GetAll() {
			if e.Labels()["uid"] == u["uid"] {
				m.m[pk{e.ID().ID(), e.ID().Length()}] = u
			}
		}
	case 7:
		sel := randSelector(c)
		e1, e2 := a.ReleaseByLabel(sel), b.ReleaseByLabel(sel)
		c.Op("both ReleaseByLabel(%s) = %v, %v", sel, e1, e2)
		c.Check(e1 == nil && e2 == nil, "ReleaseByLabel: original %v, clone %v", e1, e2)
		for q, ql := range m.m {
			if sel.Matches(ql) {
				delete(m.m, q)
			}
		}
	}
	m.checkAll(c, "original ", a)
	m.checkAll(c, "clone ", b)
}

func checkC18(r *Run) {
	r.rule = "a case is one tree with a random history (claims and releases, so that freed nodes are reused), cloned; the same operations are applied to original and clone and their outcomes compared, then different ones, checking each tree against its own reference after every step; clones of clones are made on the way. generic: the same for the generic multi-value tree. control: a history run with and without operations on the other of tree and clone; the answers, including which free id is chosen, must be the same. Non-trivial: the tree had content when cloned and both sides were modified afterwards."
	r.Each("gtree", r.N(1200, 30000), func(c *Case, i int) {
		m := randTree(c, i)
		t := m.newTree(c)
		pool := m.pool(c, 5+c.Rng.IntN(20))
		var st opStats
		for k := c.Rng.IntN(30); k > 0; k-- {
			m.mutate(c, t, pool, k, &st)
		}
		m.checkAll(c, "", t)
		n0 := len(m.m)
		cl := t.Clone()
		c.Op("Clone with %d entries", n0)
		m.checkAll(c, "clone ", cl)
		m.checkAll(c, "original ", t)
		for k := 0; k < 8; k++ {
			m.same(c, t, cl, pool, 100+k)
		}
		trees := []gtree.GTree{t, cl}
		models := []*treeModel{m, m.clone()}
		for k := 0; k < 40; k++ {
			x := c.Rng.IntN(len(trees))
			if len(trees) < 5 && c.Rng.IntN(12) == 0 {
				trees = append(trees, trees[x].Clone())
				models = append(models, models[x].clone())
				c.Op("Clone of #%d", x)
			} else {
				c.Op("on #%d:", x)
				models[x].mutate(c, trees[x], pool, 200+k, &st)
				if c.Rng.IntN(6) == 0 {
					models[x].rejects(c, trees[x], &st)
				}
			}
			for y := range trees {
				models[y].checkAll(c, fmt.Sprintf("after a step on #%d, #%d ", x, y), trees[y])
			}
		}
		for y := range trees {
			models[y].checkState(c, trees[y], pool)
			for _, q := range pool {
				models[y].checkRel(c, trees[y], q)
			}
		}
		if n0 > 0 {
			c.Nontrivial()
		}
		r.Count("clones", int64(len(trees)-1))
	})
	r.Each("generic", r.N(900, 20000), func(c *Case, i int) {
		g := newGenTree(c, widths[i%3])
		for k := c.Rng.IntN(40); k > 0; k-- {
			g.step(c)
		}
		n0 := len(g.m)
		gs := []*genTree{g, g.clone()}
		c.Op("Clone with %d prefixes", n0)
		gs[1].check(c)
		for k := 0; k < 50; k++ {
			x := c.Rng.IntN(len(gs))
			if len(gs) < 4 && c.Rng.IntN(15) == 0 {
				gs = append(gs, gs[x].clone())
				c.Op("Clone of #%d", x)
			} else {
				c.Op("on #%d:", x)
				gs[x].step(c)
			}
			for _, h := range gs {
				h.check(c)
			}
		}
		if n0 > 0 {
			c.Nontrivial()
		}
	})
	controlC18(r)
	largeC18(r)
	hugeC18(r)
}
