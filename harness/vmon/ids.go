package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"regexp"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"k8s.io/apimachinery/pkg/labels"
)

func init() {
	checks["C21"] = checkC21
	checks["C22"] = checkC22
	checks["C23"] = checkC23
	checks["C24"] = checkC24
	checks["C26"] = checkC26
}

// bound picks a value of the width with a bias to structured ones.
func (w *Width) bound(c *Case) uint64 {
	switch c.Rng.IntN(8) {
	case 0:
		return c.Rng.Uint64N(17)
	case 1:
		return w.Max - c.Rng.Uint64N(17)
	case 2: // power of two, and next to it
		return (uint64(1)<<c.Rng.IntN(int(w.B)) + c.Rng.Uint64N(3) - 1) & w.Max
	case 3: // long runs of equal bits
		return (c.Rng.Uint64() & (^uint64(0) << c.Rng.IntN(int(w.B)))) & w.Max
	case 4:
		return (c.Rng.Uint64() | lowBits(uint8(c.Rng.IntN(int(w.B))))) & w.Max
	case 5:
		return (w.Max/2 + c.Rng.Uint64N(5) - 2) & w.Max
	case 6:
		return c.Rng.Uint64() >> c.Rng.IntN(64) & w.Max
	}
	return c.Rng.Uint64() & w.Max
}

func (w *Width) interval(c *Case) iv {
	a := w.bound(c)
	b := w.bound(c)
	switch c.Rng.IntN(5) {
	case 0:
		b = a
	case 1:
		b = min(w.Max, a+c.Rng.Uint64N(40))
		if b < a {
			b = w.Max
		}
	case 2:
		l := uint8(c.Rng.IntN(int(w.B) + 1))
		a &= w.mask(l)
		b = a | w.span(l)
	}
	if a > b {
		a, b = b, a
	}
	return iv{a, b}
}

func idsStr(ids []tree.ID) string {
	var b []string
	for i, x := range ids {
		if i == 20 {
			b = append(b, fmt.Sprintf("... (%d)", len(ids)))
			break
		}
		b = append(b, fmt.Sprintf("%d/%d", x.ID(), x.Length()))
	}
	return "[" + strings.Join(b, " ") + "]"
}

func (w *Width) checkIDs(c *Case, what string, got []tree.ID, want []pk) {
	c.R.beats.Add(1)
	if len(got) != len(want) {
		c.Fail("%s = %s, want %v", what, idsStr(got), want)
	}
	for i, x := range got {
		if x == nil || x.ID() != want[i].v || x.Length() != want[i].l {
			c.Fail("%s = %s, want %v", what, idsStr(got), want)
		}
	}
}

// rng makes a range of the library for an interval, by any of the ways a user can.
func (w *Width) rng(c *Case, x iv) tree.Range {
	a, b := x.lo, x.hi
	switch c.Rng.IntN(5) {
	case 0:
		r, err := w.Parse(fmt.Sprintf("%d-%d", a, b))
		c.Check(err == nil, "ParseRange(%d-%d): %v", a, b, err)
		return r
	case 1:
		return w.RangeFrom(0, b).SetFrom(w.NewID(a, w.B))
	case 2:
		r := w.RangeFrom(a, w.Max)
		return r.SetTo(w.NewID(b, w.B))
	case 3: // bounds as the pointers listed by IDs
		r := w.RangeFrom(a, b)
		if ids := w.RangeFrom(a, a).IDs(); len(ids) == 1 {
			r = r.SetFrom(ids[0])
		}
		if ids := w.RangeFrom(b, b).IDs(); len(ids) == 1 {
			r = r.SetTo(ids[0])
		}
		return r
	}
	return w.RangeFrom(a, b)
}

func (w *Width) checkDecompose(c *Case, x iv) int {
	r := w.rng(c, x)
	if c.ops < 400 {
		c.Op("range %d-%d", x.lo, x.hi)
	} else {
		c.Beat()
		c.Mix(x.lo)
		c.Mix(x.hi)
	}
	want := w.decompose(x.lo, x.hi)
	ids := r.IDs()
	w.checkIDs(c, fmt.Sprintf("IDs of %d-%d (%d bit)", x.lo, x.hi, w.B), ids, want)
	switch c.Rng.IntN(16) {
	case 0: // a list is the caller's own: it stays as it is
		c.Hold(fmt.Sprintf("IDs of %d-%d", x.lo, x.hi), func() string { return handedList[tree.ID]{ids, idStr}.str() })
	case 1, 2: // and what the caller does to it stays with the caller
		how := handedList[tree.ID]{ids, idStr}.wreck(c.Rng)
		w.checkIDs(c, fmt.Sprintf("IDs of %d-%d (%d bit) after the caller's list of them was %s", x.lo, x.hi, w.B, how), r.IDs(), want)
	}
	pre, ps := w.prefilled(c, x.lo, x.hi)
	app := r.AppendIDs(pre)
	w.checkIDs(c, fmt.Sprintf("AppendIDs of %d-%d to %v", x.lo, x.hi, ps), app, append(ps[:len(ps):len(ps)], want...))
	w.checkIDs(c, fmt.Sprintf("the list given to AppendIDs of %d-%d", x.lo, x.hi), pre, ps)
	if r.From().ID() != x.lo || r.To().ID() != x.hi {
		c.Fail("listing the range %d-%d changed it to %v", x.lo, x.hi, r)
	}
	return len(want)
}

func idStr(id tree.ID) string {
	if id == nil {
		return "nil"
	}
	return num(id.ID()) + "/" + num(uint64(id.Length()))
}

func (w *Width) checkPrefix(c *Case, p pk) {
	// also with host bits set: the prefix is the same
	v := p.v
	if c.Rng.IntN(3) == 0 {
		v |= c.Rng.Uint64() & w.span(p.l)
	}
	id := w.NewID(v, p.l)
	x := w.iv(p)
	r := w.RangeOf(id)
	if r.From() == nil || r.To() == nil {
		c.Fail("RangeOfID(%d/%d) (%d bit) has no bounds", v, p.l, w.B)
	}
	if r.From().ID() != x.lo || r.To().ID() != x.hi || r.From().Length() != w.B || r.To().Length() != w.B {
		c.Fail("RangeOfID(%d/%d) (%d bit) = %v-%v, want %d-%d", v, p.l, w.B, r.From(), r.To(), x.lo, x.hi)
	}
	last := w.LastID(id)
	if last.ID() != x.hi || last.Length() != w.B {
		c.Fail("LastID(%d/%d) = %v, want %d", v, p.l, last, x.hi)
	}
	w.checkIDs(c, fmt.Sprintf("IDs of the range of %v (%d bit)", p, w.B), r.IDs(), []pk{{x.lo, p.l}})
	// pointer form
	ids := r.IDs()
	r2 := w.RangeOf(ids[0])
	if r2.From().ID() != x.lo || r2.To().ID() != x.hi {
		c.Fail("RangeOfID of the listed id %v = %v-%v, want %d-%d", p, r2.From(), r2.To(), x.lo, x.hi)
	}
}

func checkC21(r *Run) {
	r.rule = "a case is a batch of ranges of one width (random, aligned, adjacent to powers of two, single id, at both ends of the id space), made by each constructor; IDs and AppendIDs (to lists of 0 to 200 ids with any spare room) are compared element by element with the unique minimal aligned decomposition computed greedily, and RangeOfID, LastID and the decomposition of its range with the arithmetic of every prefix. exhaustive: all ranges inside a block of 64 ids at several positions, and every prefix length. Non-trivial: the batch has a range that needs three or more prefixes."
	r.Each("random", r.N(600, 20000), func(c *Case, i int) {
		w := widths[i%3]
		most := 0
		for k := 0; k < 100; k++ {
			most = max(most, w.checkDecompose(c, w.interval(c)))
			l := uint8(c.Rng.IntN(int(w.B) + 1))
			w.checkPrefix(c, pk{w.bound(c) & w.mask(l), l})
		}
		r.Max("longest_decomposition", int64(most))
		r.Count("ranges", 100)
		if most >= 3 {
			c.Nontrivial()
		}
	})
	r.Each("exhaustive", 3*6, func(c *Case, i int) {
		w := widths[i%3]
		base := []uint64{0, w.Max - 63, w.Max/2 - 31, w.Max/2 + 1, w.Max/4 - 20, 1 << (w.B - 3)}[i/3]
		for a := uint64(0); a < 64; a++ {
			for b := a; b < 64; b++ {
				w.checkDecompose(c, iv{base + a, base + b})
			}
			w.checkDecompose(c, iv{base + a, w.Max})
			w.checkDecompose(c, iv{0, base + a})
		}
		for l := uint8(0); l <= w.B; l++ {
			for _, v := range []uint64{0, w.Max, base, w.Max / 3} {
				w.checkPrefix(c, pk{v & w.mask(l), l})
			}
		}
		c.Nontrivial()
	})
}

func setOf(c *Case, what string, w *Width, s *idSet) ivset {
	if s == nil {
		c.Fail("%s: no set", what)
	}
	var got ivset
	for _, r := range s.Ranges() {
		if r.From() == nil || r.To() == nil {
			c.Fail("%s: range without bounds", what)
		}
		got = append(got, iv{r.From().ID(), r.To().ID()})
		if r.From().Length() != w.B || r.To().Length() != w.B {
			c.Fail("%s: the range %v-%v is not made of full-length ids", what, r.From(), r.To())
		}
	}
	return got
}

// checkSet compares a built set with the reference: normalised ranges and the prefixes that cover them.
func (w *Width) checkSet(c *Case, what string, s *idSet, want ivset) {
	c.R.beats.Add(1)
	got := setOf(c, what, w, s)
	if !got.equal(want) {
		c.Fail("%s (%d bit): ranges %v, want %v", what, w.B, got, want)
	}
	var ids []pk
	for _, x := range want {
		ids = append(ids, w.decompose(x.lo, x.hi)...)
	}
	l := s.IDs()
	w.checkIDs(c, what+": IDs", l, ids)
	if c.Rng.IntN(4) == 0 { // the lists a set reports are the caller's own
		rs := s.Ranges()
		for i := range rs {
			rs[i] = w.RangeFrom(0, 0)
		}
		for i := range l {
			l[i] = w.NewID(0, 0)
		}
		_ = append(rs[:0:len(rs)], w.RangeFrom(1, 1))
		if again := setOf(c, what, w, s); !again.equal(want) {
			c.Fail("%s (%d bit): after the caller overwrote the list of ranges it got, the set has %v, want %v", what, w.B, again, want)
		}
		w.checkIDs(c, what+": IDs after the caller overwrote the list it got", s.IDs(), ids)
	}
}

type builtSet struct {
	s    *idSet
	want ivset
	n    int
}

func checkC22(r *Run) {
	r.rule = "a case is one set builder of one width with 5 to 60 steps (add/remove of ids, prefixes with and without host bits, ranges of every constructor, earlier sets; invalid prefixes and reversed or mixed-length ranges), built several times on the way; every built set is compared with interval-set algebra, and all earlier built sets are compared again at the end. large: sets of up to 400 ranges and several builders that started from the same set. Non-trivial: adds and removes that intersect, giving at least two ranges, with an intermediate build."
	r.Each("steps", r.N(4500, 150000), func(c *Case, i int) {
		w := widths[i%3]
		b := w.Builder()
		var cur ivset
		var built []builtSet
		var pts []uint64
		bad := false
		maxr, cuts := 0, 0
		near := c.Rng.IntN(2) == 0 // work in a small neighbourhood
		base := w.bound(c)
		pick := func() iv {
			if near {
				a := base - min(base, c.Rng.Uint64N(24))
				h := min(c.Rng.Uint64N(10), w.Max-a)
				return iv{a, a + h}
			}
			if len(pts) > 0 && c.Rng.IntN(2) == 0 { // touch or cross an earlier bound
				a := pts[c.Rng.IntN(len(pts))]
				a = min(w.Max, a-min(a, 1)+c.Rng.Uint64N(3))
				if a > w.Max-20 && c.Rng.IntN(2) == 0 {
					return iv{a, w.Max}
				}
				return iv{a, a + min(c.Rng.Uint64N(20), w.Max-a)}
			}
			return w.interval(c)
		}
		n := 5 + c.Rng.IntN(56)
		for k := 0; k < n; k++ {
			switch op := c.Rng.IntN(16); {
			case op < 4:
				x := pick()
				c.Op("AddRange(%d-%d)", x.lo, x.hi)
				b.AddRange(w.rng(c, x))
				cur = cur.add(x)
				pts = append(pts, x.lo, x.hi)
			case op < 8:
				x := pick()
				c.Op("RemoveRange(%d-%d)", x.lo, x.hi)
				b.RemoveRange(w.rng(c, x))
				before := cur
				cur = cur.remove(x)
				if !before.equal(cur) {
					cuts++
				}
				pts = append(pts, x.lo, x.hi)
			case op < 12:
				l := uint8(c.Rng.IntN(int(w.B) + 1))
				if c.Rng.IntN(2) == 0 {
					l = w.B - uint8(c.Rng.IntN(5))
				}
				v := pick().lo
				p := pk{v & w.mask(l), l}
				if c.Rng.IntN(2) == 0 {
					v = p.v
				}
				id := w.NewID(v, l)
				if v == p.v && c.Rng.IntN(3) == 0 {
					id = w.RangeOf(id).IDs()[0]
				}
				if c.Rng.IntN(2) == 0 {
					c.Op("AddId(%d/%d)", v, l)
					b.AddId(id)
					cur = cur.add(w.iv(p))
				} else {
					c.Op("RemoveId(%d/%d)", v, l)
					b.RemoveId(id)
					cur = cur.remove(w.iv(p))
				}
			case op < 13 && len(built) > 0:
				x := built[c.Rng.IntN(len(built))]
				c.Op("AddSet(#%d)", x.n)
				b.addSet(x.s)
				b.addSet(nil) // adds nothing
				for _, y := range x.want {
					cur = cur.add(y)
				}
			case op < 14:
				c.Op("invalid")
				bad = true
				switch c.Rng.IntN(5) {
				case 0:
					b.AddId(w.NewID(pick().lo, w.B+1+uint8(c.Rng.IntN(int(255-w.B)))))
				case 1:
					b.RemoveId(w.NewID(pick().lo, w.B+1+uint8(c.Rng.IntN(int(255-w.B)))))
				case 2:
					b.AddRange(w.RangeFrom(w.Max, c.Rng.Uint64N(w.Max)))
				case 3:
					b.RemoveRange(w.RangeFrom(w.Max, c.Rng.Uint64N(w.Max)))
				case 4:
					b.AddRange(w.RangeFrom(1, 5).SetFrom(w.NewID(1, w.B-1)))
				}
			default:
				s, err := b.build()
				c.Op("build #%d = %v", len(built), err != nil)
				c.Check((err != nil) == bad, "build reports error %v, there were invalid steps: %v", err, bad)
				w.checkSet(c, fmt.Sprintf("build #%d", len(built)), s, cur)
				built = append(built, builtSet{s, append(ivset(nil), cur...), len(built)})
				if bad { // what an error leaves behind is not specified beyond the content
					b = w.Builder()
					b.addSet(s)
					bad = false
				}
			}
			maxr = max(maxr, len(cur))
		}
		s, err := b.build()
		c.Op("final build = %v", err != nil)
		c.Check((err != nil) == bad, "build reports error %v, there were invalid steps: %v", err, bad)
		w.checkSet(c, "final build", s, cur)
		for _, x := range built {
			w.checkSet(c, fmt.Sprintf("build #%d, looked at again at the end", x.n), x.s, x.want)
		}
		r.Max("most_ranges", int64(maxr))
		if cuts > 0 && maxr > 1 && len(built) > 0 {
			c.Nontrivial()
		}
	})
	// all pairs of an added and a removed range, and of two added ones, in a block of 8 ids at both ends of the space
	r.Each("exhaustive", 3*3, func(c *Case, i int) {
		w := widths[i%3]
		base := []uint64{0, w.Max - 7, w.Max/2 - 3}[i/3]
		n := 0
		for a := uint64(0); a < 8; a++ {
			for b := a; b < 8; b++ {
				for x := uint64(0); x < 8; x++ {
					for y := x; y < 8; y++ {
						for order := 0; order < 3; order++ {
							bl := w.Builder()
							p, q := iv{base + a, base + b}, iv{base + x, base + y}
							var want ivset
							switch order {
							case 0:
								bl.AddRange(w.RangeFrom(p.lo, p.hi))
								bl.RemoveRange(w.RangeFrom(q.lo, q.hi))
								want = want.add(p).remove(q)
							case 1:
								bl.AddRange(w.RangeFrom(p.lo, p.hi))
								bl.AddRange(w.RangeFrom(q.lo, q.hi))
								want = want.add(p).add(q)
							case 2:
								bl.RemoveRange(w.RangeFrom(q.lo, q.hi))
								bl.AddRange(w.RangeFrom(p.lo, p.hi))
								want = want.add(p)
							}
							s, err := bl.build()
							if err != nil {
								c.Fail("%d: %v %v: %v", order, p, q, err)
							}
							w.checkSet(c, fmt.Sprintf("order %d of %d-%d and %d-%d", order, p.lo, p.hi, q.lo, q.hi), s, want)
							n++
						}
					}
				}
			}
		}
		c.Op("%d combinations at %d", n, base)
		r.Count("exhaustive_combinations", int64(n))
		c.Nontrivial()
	})
	largeC22(r)
}

func checkC23(r *Run) {
	r.rule = "a case is one set (random ranges, fragmented neighbourhoods, the whole space, empty) from which prefixes of random lengths are removed until it is used up or 25 times; the returned block and set are compared with the reference: smallest maximal free aligned block that fits, lowest on ties. large: the same with sets of up to 750 ranges. Non-trivial: at least one removal had a choice between blocks of different size, and one request failed."
	r.Each("sets", r.N(3000, 60000), func(c *Case, i int) {
		w := widths[i%3]
		var cur ivset
		for k := c.Rng.IntN(7); k > 0; k-- {
			x := w.interval(c)
			if c.Rng.IntN(2) == 0 {
				x.hi = min(w.Max, x.lo+c.Rng.Uint64N(300))
				if x.hi < x.lo {
					x.hi = w.Max
				}
			}
			if c.Rng.IntN(3) == 0 {
				cur = cur.remove(x)
			} else {
				cur = cur.add(x)
			}
		}
		b := w.Builder()
		for _, x := range cur {
			b.AddRange(w.RangeFrom(x.lo, x.hi))
		}
		s, err := b.build()
		c.Check(err == nil, "build: %v", err)
		c.Op("set %v", cur)
		choice, failed := false, false
		for k := 0; k < 25; k++ {
			l := uint8(c.Rng.IntN(int(w.B) + 1))
			if c.Rng.IntN(2) == 0 {
				l = w.B - uint8(c.Rng.IntN(8))
			}
			var blocks []pk
			for _, x := range cur {
				blocks = append(blocks, w.decompose(x.lo, x.hi)...)
			}
			var best *pk
			lens := map[uint8]bool{}
			for j := range blocks {
				if blocks[j].l <= l {
					lens[blocks[j].l] = true
					if best == nil || blocks[j].l > best.l {
						best = &blocks[j]
					}
				}
			}
			id, n, ok := s.RFP(l)
			c.Op("RemoveFreePrefix(%d) = %v, %v", l, id, ok)
			c.Check(ok == (best != nil), "RemoveFreePrefix(%d) of %v (%d bit) returned %v; an aligned block fits: %v", l, cur, w.B, ok, best != nil)
			w.checkSet(c, "the original set after RemoveFreePrefix", s, cur)
			if !ok {
				failed = true
				if len(cur) == 0 {
					break
				}
				continue
			}
			c.Check(id != nil && id.ID() == best.v && id.Length() == l, "RemoveFreePrefix(%d) of %v (%d bit) returned %v, want %d/%d", l, cur, w.B, id, best.v, l)
			choice = choice || len(lens) > 1
			cur = cur.remove(w.iv(pk{best.v, l}))
			w.checkSet(c, "the set without the removed prefix", n, cur)
			s = n
		}
		if choice && failed {
			c.Nontrivial()
		}
	})
	largeC23(r)
}

func (w *Width) checkOneID(c *Case, v uint64, l uint8) {
	id := w.NewID(v, l)
	if id.ID() != v || id.Length() != l {
		c.Fail("NewID(%d,%d) is %d/%d", v, l, id.ID(), id.Length())
	}
	if x := id.Copy(); x.ID() != v || x.Length() != l {
		c.Fail("Copy of %d/%d is %v", v, l, x)
	}
	n := id.Next()
	if v == w.Max {
		if n.ID() != 0 || n.Length() != 0 {
			c.Fail("Next of the last id %d/%d (%d bit) = %v, want the zero id", v, l, w.B, n)
		}
	} else if n.ID() != v+1 || n.Length() != l {
		c.Fail("Next of %d/%d (%d bit) = %v", v, l, w.B, n)
	}
	p := id.Prev()
	if v == 0 {
		if p.ID() != 0 || p.Length() != 0 {
			c.Fail("Prev of 0/%d (%d bit) = %v, want the zero id", l, w.B, p)
		}
	} else if p.ID() != v-1 || p.Length() != l {
		c.Fail("Prev of %d/%d (%d bit) = %v", v, l, w.B, p)
	}
	m := id.Masked()
	if m == nil || m.ID() != v&w.mask(l) || m.Length() != l {
		c.Fail("Masked of %d/%d (%d bit) = %v, want %d", v, l, w.B, m, v&w.mask(l))
	}
	top := v>>(w.B-1)&1 == 1
	if id.IsLeftBitSet() != top || w.LeftBit(v) != top {
		c.Fail("IsLeftBitSet of %d/%d (%d bit) = %v, %v", v, l, w.B, id.IsLeftBitSet(), w.LeftBit(v))
	}
	if id.ID() != v || id.Length() != l {
		c.Fail("id %d/%d changed to %v", v, l, id)
	}
}

func (w *Width) checkTwoIDs(c *Case, a, b pk) {
	x, y := w.NewID(a.v, a.l), w.NewID(b.v, b.l)
	// containment of the prefixes
	ml := min(a.l, b.l)
	ov := (a.v^b.v)&w.mask(ml) == 0
	if x.Overlaps(y) != ov || y.Overlaps(x) != ov {
		c.Fail("Overlaps of %v and %v (%d bit) = %v, %v, want %v", a, b, w.B, x.Overlaps(y), y.Overlaps(x), ov)
	}
	cmp := 0
	switch {
	case a.l < b.l, a.l == b.l && a.v < b.v:
		cmp = -1
	case a.l > b.l, a.v > b.v:
		cmp = 1
	}
	if x.Compare(y) != cmp || y.Compare(x) != -cmp || x.Less(y) != (cmp < 0) || y.Less(x) != (cmp > 0) {
		c.Fail("Compare of %v and %v (%d bit) = %d, reverse %d, Less %v, reverse %v; want %d", a, b, w.B, x.Compare(y), y.Compare(x), x.Less(y), y.Less(x), cmp)
	}
	want := uint8(bits.LeadingZeros64((a.v^b.v)<<(64-w.B) | lowBits(64-w.B)))
	if a.v == b.v {
		want = w.B
	}
	if x.Matches(b.v) != want || y.Matches(a.v) != want {
		c.Fail("Matches of %d and %d (%d bit) = %d, %d, want %d", a.v, b.v, w.B, x.Matches(b.v), y.Matches(a.v), want)
	}
}

func (w *Width) checkShift(c *Case, v uint64, l, n uint8) {
	id := w.NewID(v, l)
	s := id.ShiftLeft(n)
	want := v << n & w.Max
	if n >= 64 {
		want = 0
	}
	if s.ID() != want || s.Length() != l-n {
		c.Fail("ShiftLeft(%d) of %d/%d (%d bit) = %v, want %d/%d", n, v, l, w.B, s, want, l-n)
	}
	if id.ID() != v || id.Length() != l {
		c.Fail("ShiftLeft changed the id %d/%d to %v", v, l, id)
	}
}

func (w *Width) checkMask(c *Case, v uint64, idl, l uint8) {
	m, err := w.NewID(v, idl).Mask(l)
	if (err == nil) != (l <= w.B) {
		c.Fail("Mask(%d) of %d/%d (%d bit): error %v", l, v, idl, w.B, err)
	}
	if err == nil && (m == nil || m.ID() != v&w.mask(l) || m.Length() != l) {
		c.Fail("Mask(%d) of %d/%d (%d bit) = %v, want %d", l, v, idl, w.B, m, v&w.mask(l))
	}
}

func (w *Width) checkMerge(c *Case, p pk, cut uint8) {
	// splitting a prefix at cut and merging the two parts gives the prefix back
	lv := p.v & w.mask(cut)
	rv := p.v << cut & w.Max
	if cut >= 64 {
		rv = 0
	}
	// the parts of tree nodes may carry bits beyond their length: they must not show
	gv, gl := w.Merge(lv|c.Rng.Uint64()&w.span(cut), cut, rv|c.Rng.Uint64()&w.span(p.l-cut), p.l-cut)
	if gv != p.v || gl != p.l {
		c.Fail("merging the first %d bits of %v (%d bit) with the rest gives %d/%d", cut, p, w.B, gv, gl)
	}
}

func checkC24(r *Run) {
	r.rule = "all16: every 16-bit id (next, previous, left bit, all mask lengths and shifts for a rotating length). random: batches of structured and random ids, pairs and prefixes of every width and length against plain integer arithmetic; entries: pairs of entries from a small family of ids and ambiguous-looking label sets. carry16: the exported 16-bit add with carry and subtract with borrow. Non-trivial: every batch contains ids at both ends of the space, equal pairs and overlapping prefixes of different lengths."
	r.Each("all16", 64, func(c *Case, i int) {
		w := widths[0]
		for v := uint64(i) << 10; v < uint64(i+1)<<10; v++ {
			l := uint8(v % 17)
			w.checkOneID(c, v, l)
			w.checkOneID(c, v, 16)
			for n := uint8(0); n <= l; n++ {
				w.checkShift(c, v, l, n)
			}
			for n := uint8(0); n <= 20; n++ {
				w.checkMask(c, v, l, n)
			}
			w.checkTwoIDs(c, pk{v, 16}, pk{v ^ 1<<(v%16), l})
			c.Beat()
		}
		c.Op("16-bit ids %d to %d", i<<10, (i+1)<<10-1)
		c.Nontrivial()
	})
	r.Each("random", r.N(600, 20000), func(c *Case, i int) {
		w := widths[i%3]
		for k := 0; k < 150; k++ {
			v, l := w.bound(c), uint8(c.Rng.IntN(int(w.B)+1))
			switch c.Rng.IntN(4) {
			case 0:
				l = w.B
			case 1:
				if k < 4 {
					v = w.Max * uint64(k%2)
				}
			}
			w.checkOneID(c, v, l)
			for x := 0; x < 3; x++ {
				w.checkShift(c, v, l, uint8(c.Rng.IntN(int(l)+1)))
				w.checkMask(c, v, l, uint8(c.Rng.IntN(int(w.B)+1)))
				w.checkMask(c, v, l, uint8(c.Rng.IntN(256)))
			}
			w.checkMask(c, v, l, w.B)
			w.checkMask(c, v, l, w.B+1)
			w.checkMask(c, v, l, 0)
			q := pk{w.bound(c), uint8(c.Rng.IntN(int(w.B) + 1))}
			switch c.Rng.IntN(4) {
			case 0:
				q.v = v
			case 1: // differ in one bit
				q.v = v ^ 1<<c.Rng.IntN(int(w.B))
			case 2:
				q.v, q.l = v, l
			}
			w.checkTwoIDs(c, pk{v, l}, q)
			p := pk{v & w.mask(l), l}
			w.checkMerge(c, p, uint8(c.Rng.IntN(int(l)+1)))
			w.checkMerge(c, p, 0)
			w.checkMerge(c, p, l)
			if k < 3 {
				c.Op("%d/%d, %v", v, l, q)
			} else {
				c.Beat()
				c.Mix(v)
				c.Mix(uint64(l))
				c.Mix(q.v)
			}
		}
		r.Count("ids", 150)
		c.Nontrivial()
	})
	r.Each("total-order", r.N(90, 900), func(c *Case, i int) { // antisymmetric, transitive, total on triples
		w := widths[i%3]
		var ps []pk
		for k := 0; k < 14; k++ {
			ps = append(ps, pk{w.bound(c), uint8(c.Rng.IntN(int(w.B) + 1))})
			if k > 2 && c.Rng.IntN(2) == 0 {
				ps[k].l = ps[k-1].l
			}
			c.Op("%v", ps[k])
		}
		for _, a := range ps {
			for _, b := range ps {
				w.checkTwoIDs(c, a, b)
				for _, d := range ps {
					x, y, z := w.NewID(a.v, a.l), w.NewID(b.v, b.l), w.NewID(d.v, d.l)
					if x.Less(y) && y.Less(z) && !x.Less(z) {
						c.Fail("%v < %v < %v but not %v < %v", a, b, d, a, d)
					}
				}
			}
		}
		c.Nontrivial()
	})
	r.Each("entries", r.N(60, 600), func(c *Case, i int) {
		w := widths[i%3]
		vs := []uint64{0, 1, w.bound(c), w.Max}
		ls := []uint8{0, 1, w.B - 1, w.B}
		lss := []labels.Set{nil, {}, {"a": ""}, {"a": "1"}, {"a": "2"}, {"b": "1"}, {"a": "1", "b": "2"}, {"a": "1,b=2"}, {"a=1,b": "2"}, {"a": "1", "b": "3"}, {"a": "b"}, {"A": "1"}, {"a": "1", "c": "2"}}
		type ent struct {
			p pk
			l labels.Set
			e tree.Entry
		}
		var es []ent
		for k := 0; k < 60; k++ {
			p := pk{vs[c.Rng.IntN(len(vs))], ls[c.Rng.IntN(len(ls))]}
			l := lss[c.Rng.IntN(len(lss))]
			id := w.NewID(p.v, p.l)
			es = append(es, ent{p, l, tree.NewEntry(id, cloneLabels(l))})
			e := es[k].e
			c.Op("%v %v", p, l)
			c.Check(e.ID().ID() == p.v && e.ID().Length() == p.l && lkey(e.Labels()) == lkey(l), "entry of %v %v reports %v", p, l, e)
		}
		for _, a := range es {
			for _, b := range es {
				want := a.p == b.p && lkey(a.l) == lkey(b.l)
				if a.e.Equal(b.e) != want {
					c.Fail("Equal of %v %q and %v %q = %v", a.p, lkey(a.l), b.p, lkey(b.l), !want)
				}
			}
		}
		c.Nontrivial()
	})
	r.rule += " kept: ids of every origin (constructors, copies, results of other operations, members of ranges and sets) have operations applied to them, and all of them are compared with what they were at the end."
	r.Each("kept", r.N(300, 9000), func(c *Case, i int) {
		w := widths[i%3]
		type kept struct {
			id tree.ID
			p  pk
		}
		var ids []kept
		keep := func(id tree.ID) {
			if id != nil && len(ids) < 400 {
				ids = append(ids, kept{id, pk{id.ID(), id.Length()}})
			}
		}
		lo, hi := w.bound(c), w.bound(c)
		rg := w.RangeFrom(min(lo, hi), max(lo, hi))
		keep(rg.From())
		keep(rg.To())
		for _, id := range rg.IDs() {
			keep(id)
		}
		b := w.Builder()
		for k := 0; k < 4; k++ {
			p := pk{w.bound(c), uint8(c.Rng.IntN(int(w.B) + 1))}
			id := w.NewID(p.v&w.mask(p.l), p.l)
			keep(id)
			b.AddId(id)
		}
		if set, err := b.build(); err == nil {
			for _, id := range set.IDs() {
				keep(id)
			}
			got, _, _ := set.RFP(uint8(c.Rng.IntN(int(w.B) + 1)))
			keep(got)
		}
		for k := 0; k < 200; k++ {
			x, y := ids[c.Rng.IntN(len(ids))], ids[c.Rng.IntN(len(ids))]
			switch n := c.Rng.IntN(11); n {
			case 0:
				keep(x.id.Copy())
			case 1:
				keep(x.id.ShiftLeft(uint8(c.Rng.IntN(int(x.p.l) + 1))))
			case 2:
				m, _ := x.id.Mask(uint8(c.Rng.IntN(int(w.B) + 1)))
				keep(m)
			case 3:
				keep(x.id.Masked())
			case 4, 5:
				if x.p.l == w.B {
					if n == 4 {
						keep(x.id.Next())
					} else {
						keep(x.id.Prev())
					}
				}
			case 6:
				_, _ = x.id.Overlaps(y.id), x.id.String()
			case 7:
				_, _ = x.id.Compare(y.id), x.id.Less(y.id)
			case 8:
				_, _ = x.id.Matches(w.bound(c)), x.id.IsLeftBitSet()
			case 9:
				r2 := rg.SetFrom(x.id)
				keep(r2.From())
				keep(r2.To())
			case 10:
				r2 := rg.SetTo(x.id)
				keep(r2.From())
				keep(r2.To())
			}
		}
		for _, x := range ids {
			c.Op("%v", x.p)
			c.Check(x.id.ID() == x.p.v && x.id.Length() == x.p.l, "the id %v has become %d/%d", x.p, x.id.ID(), x.id.Length())
		}
		c.Check(rg.From().ID() == min(lo, hi) && rg.To().ID() == max(lo, hi), "the range %d-%d has become %v", min(lo, hi), max(lo, hi), rg)
		c.Nontrivial()
	})
	arith16(r)
	_, _, _ = id16.IDBitSize, id32.IDBitSize, id64.IDBitSize
}

var rangeRe = regexp.MustCompile(`^([0-9]+)-([0-9]+)$`)

// parseOracle says whether s is "a-b" with two decimal numbers that fit the width.
func (w *Width) parseOracle(s string) (uint64, uint64, bool) {
	m := rangeRe.FindStringSubmatch(s)
	if m == nil {
		return 0, 0, false
	}
	var v [2]uint64
	for i := range v {
		n, _ := new(big.Int).SetString(m[i+1], 10)
		if !n.IsUint64() || n.Uint64() > w.Max {
			return 0, 0, false
		}
		v[i] = n.Uint64()
	}
	return v[0], v[1], true
}

func (w *Width) checkParse(c *Case, s string) bool {
	a, b, ok := w.parseOracle(s)
	r, err := w.Parse(s)
	if (err == nil) != ok {
		c.Fail("ParseRange(%q) (%d bit): error %v, want accepted: %v", s, w.B, err, ok)
	}
	if !ok {
		return false
	}
	if r.From().ID() != a || r.To().ID() != b || r.From().Length() != w.B || r.To().Length() != w.B {
		c.Fail("ParseRange(%q) (%d bit) = %v-%v", s, w.B, r.From(), r.To())
	}
	w.checkPrint(c, r, a, b)
	return true
}

func (w *Width) checkPrint(c *Case, r tree.Range, a, b uint64) {
	if p := r.String(); p != fmt.Sprintf("%d-%d", a, b) {
		c.Fail("the range %d-%d (%d bit) prints as %q", a, b, w.B, p)
	}
	if r.IsValid() != (a <= b) {
		c.Fail("IsValid of %d-%d (%d bit) = %v", a, b, w.B, r.IsValid())
	}
	if r.IsZero() {
		c.Fail("IsZero of %d-%d (%d bit)", a, b, w.B)
	}
	if a == 0 { // sometimes: other bounds make another range
		x, y := w.NewID(b, w.B), w.NewID(w.Max-b, w.B)
		f, t := r.SetFrom(x), r.SetTo(y)
		if f.From().ID() != b || f.To().ID() != b || t.From().ID() != a || t.To().ID() != w.Max-b || r.From().ID() != a || r.To().ID() != b {
			c.Fail("%d-%d (%d bit): SetFrom(%d) gives %v, SetTo(%d) gives %v, and leaves %v", a, b, w.B, b, f, w.Max-b, t, r)
		}
		if z := f.SetFrom(nil).SetTo(nil); !z.IsZero() || z.IsValid() || f.SetTo(nil).IsZero() || f.SetTo(nil).IsValid() {
			c.Fail("%d-%d (%d bit): a range without bounds is valid or not zero", a, b, w.B)
		}
	}
}

func (w *Width) checkRelations(c *Case, x, y iv) {
	a, b := w.rng(c, x), w.rng(c, y)
	type rel struct {
		name      string
		got, want bool
	}
	meet := x.lo <= y.hi && y.lo <= x.hi
	rels := []rel{
		{"EntirelyBefore", a.EntirelyBefore(b), x.hi < y.lo},
		{"CoveredBy", a.CoveredBy(b), y.lo <= x.lo && x.hi <= y.hi},
		{"InMiddleOf", a.InMiddleOf(b), y.lo < x.lo && x.hi < y.hi},
		{"Less", a.Less(b), x.lo < y.lo || x.lo == y.lo && x.hi > y.hi},
	}
	if meet {
		rels = append(rels, rel{"OverlapsStartOf", a.OverlapsStartOf(b), x.lo <= y.lo && x.hi < y.hi},
			rel{"OverlapsEndOf", a.OverlapsEndOf(b), y.lo < x.lo && y.hi <= x.hi})
	}
	for _, z := range rels {
		if z.got != z.want {
			c.Fail("%d-%d %s %d-%d (%d bit) = %v, want %v", x.lo, x.hi, z.name, y.lo, y.hi, w.B, z.got, z.want)
		}
	}
}

func checkC26(r *Run) {
	r.rule = "parse: strings made from pairs of structured numbers around the width's limits, with random edits (inserted, removed, replaced and duplicated characters, signs, spaces, leading zeros), against an oracle of digits-hyphen-digits within the width; accepted ones are printed and parsed again. relations: all pairs of intervals of a block of 7 ids at several positions, and random pairs. Non-trivial: a parse batch accepted and rejected strings; every relation batch."
	r.Each("parse", r.N(900, 30000), func(c *Case, i int) {
		w := widths[i%3]
		okN, badN := 0, 0
		num := func() string {
			switch c.Rng.IntN(8) {
			case 0:
				n := new(big.Int).SetUint64(w.Max)
				n.Add(n, big.NewInt(int64(c.Rng.IntN(5))-2))
				return n.String()
			case 1:
				return "0" + fmt.Sprint(w.bound(c))
			case 2:
				n := new(big.Int).SetUint64(w.bound(c))
				n.Add(n, new(big.Int).SetUint64(w.Max))
				n.Add(n, big.NewInt(1))
				return n.String() // equal modulo 2^B
			case 3:
				if c.Rng.IntN(3) == 0 {
					return strings.Repeat("0", 30) + "7"
				}
			}
			return fmt.Sprint(w.bound(c))
		}
		chars := "0123456789-+ _.xabeE/\t\n,٣"
		for k := 0; k < 60; k++ {
			s := num() + "-" + num()
			for e := c.Rng.IntN(3); e > 0 && c.Rng.IntN(2) == 0; e-- {
				rs := []rune(s)
				p := c.Rng.IntN(len(rs) + 1)
				ch := []rune(chars)[c.Rng.IntN(len([]rune(chars)))]
				switch c.Rng.IntN(3) {
				case 0:
					s = string(rs[:p]) + string(ch) + string(rs[p:])
				case 1:
					if p < len(rs) {
						s = string(rs[:p]) + string(rs[p+1:])
					}
				default:
					if p < len(rs) {
						s = string(rs[:p]) + string(ch) + string(rs[p+1:])
					}
				}
			}
			if c.Rng.IntN(20) == 0 {
				s = malformed[c.Rng.IntN(len(malformed))]
			}
			ok := w.checkParse(c, s)
			c.Op("%q %v", s, ok)
			if ok {
				okN++
			} else {
				badN++
			}
			a, b := w.bound(c), w.bound(c)
			w.checkPrint(c, w.RangeFrom(a, b), a, b)
			r2, err := w.Parse(w.RangeFrom(a, b).String())
			c.Check(err == nil && r2.From().ID() == a && r2.To().ID() == b, "%d-%d does not survive printing and parsing: %v %v", a, b, r2, err)
		}
		r.Count("accepted", int64(okN))
		r.Count("rejected", int64(badN))
		if okN > 0 && badN > 0 {
			c.Nontrivial()
		}
	})
	r.Each("relations", 3*5, func(c *Case, i int) {
		w := widths[i%3]
		base := []uint64{0, w.Max - 6, w.Max/2 - 2, w.Max / 3, 1}[i/3]
		n := 0
		for a := uint64(0); a < 7; a++ {
			for b := a; b < 7; b++ {
				for x := uint64(0); x < 7; x++ {
					for y := x; y < 7; y++ {
						w.checkRelations(c, iv{base + a, base + b}, iv{base + x, base + y})
						n++
						c.Beat()
					}
				}
			}
		}
		c.Op("%d pairs at %d", n, base)
		c.Nontrivial()
	})
	r.Each("random-relations", r.N(600, 20000), func(c *Case, i int) {
		w := widths[i%3]
		for k := 0; k < 60; k++ {
			x, y := w.interval(c), w.interval(c)
			switch c.Rng.IntN(5) {
			case 0:
				y = x
			case 1:
				y.lo = x.lo
				y.hi = max(y.hi, y.lo)
			case 2:
				y.hi = x.hi
				y.lo = min(y.lo, y.hi)
			case 3:
				y.lo = x.hi
				y.hi = max(y.hi, y.lo)
			}
			w.checkRelations(c, x, y)
			c.Op("%d-%d %d-%d", x.lo, x.hi, y.lo, y.hi)
		}
		c.Nontrivial()
	})
}
