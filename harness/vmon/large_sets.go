package main

import (
	"fmt"

	"github.com/henderiw/idxtable/pkg/tree"
)

// scattered returns up to n separate ranges, sorted: short ones with short gaps somewhere, and some from all over.
func (w *Width) scattered(c *Case, n int) ivset {
	var s ivset
	at := w.bound(c)
	if w.Max-at < uint64(n)*20 || c.Rng.IntN(2) == 0 {
		at = c.Rng.Uint64N(w.Max - uint64(n)*20)
	}
	for len(s) < n*3/4 {
		h := at + c.Rng.Uint64N(1+c.Rng.Uint64N(16))
		if h > w.Max || h < at {
			break
		}
		s = append(s, iv{at, h})
		at = h + 2 + c.Rng.Uint64N(4)
		if at > w.Max || at < h {
			break
		}
	}
	for k := n / 4; k > 0; k-- {
		a := w.bound(c)
		s = s.add(iv{a, min(w.Max, a+min(c.Rng.Uint64N(30), w.Max-a))})
	}
	return s
}

func largeC22(r *Run) {
	r.Each("large", r.N(36, 1500), func(c *Case, i int) {
		w := widths[i%3]
		type bld struct {
			b   setBuilder
			cur ivset
		}
		var bs []*bld
		var built []builtSet
		first := w.scattered(c, 10+c.Rng.IntN(400))
		b := w.Builder()
		order := append(ivset(nil), first...)
		c.Rng.Shuffle(len(order), func(x, y int) { order[x], order[y] = order[y], order[x] })
		for _, x := range order {
			b.AddRange(w.rng(c, x))
		}
		s, err := b.build()
		c.Check(err == nil, "build: %v", err)
		c.Op("a set of %d ranges", len(first))
		w.checkSet(c, "the first set", s, first)
		built = append(built, builtSet{s, first, 0})
		bs = append(bs, &bld{b, append(ivset(nil), first...)})
		most := len(first)
		for k := 0; k < 60; k++ {
			if len(bs) < 5 && c.Rng.IntN(4) == 0 { // another builder, from an earlier set
				x := built[c.Rng.IntN(len(built))]
				nb := &bld{b: w.Builder()}
				c.Op("builder %d starts from set %d", len(bs), x.n)
				nb.b.addSet(x.s)
				nb.cur = append(ivset(nil), x.want...)
				bs = append(bs, nb)
			}
			x := bs[c.Rng.IntN(len(bs))]
			near := iv{w.bound(c), 0}
			if len(x.cur) > 0 && c.Rng.IntN(5) > 0 {
				near.lo = x.cur[c.Rng.IntN(len(x.cur))].lo
				near.lo -= min(near.lo, c.Rng.Uint64N(3))
			}
			near.hi = near.lo + min(c.Rng.Uint64N(40), w.Max-near.lo)
			switch op := c.Rng.IntN(10); {
			case op < 4:
				c.Op("AddRange(%d-%d)", near.lo, near.hi)
				x.b.AddRange(w.rng(c, near))
				x.cur = x.cur.add(near)
			case op < 7:
				c.Op("RemoveRange(%d-%d)", near.lo, near.hi)
				x.b.RemoveRange(w.rng(c, near))
				x.cur = x.cur.remove(near)
			case op < 8:
				y := built[c.Rng.IntN(len(built))]
				c.Op("AddSet(%d)", y.n)
				x.b.addSet(y.s)
				for _, z := range y.want {
					x.cur = x.cur.add(z)
				}
			default:
				s, err := x.b.build()
				c.Op("build %d", len(built))
				c.Check(err == nil, "build: %v", err)
				w.checkSet(c, fmt.Sprintf("build %d", len(built)), s, x.cur)
				built = append(built, builtSet{s, append(ivset(nil), x.cur...), len(built)})
			}
			most = max(most, len(x.cur))
		}
		for k, x := range bs {
			s, err := x.b.build()
			c.Check(err == nil, "build: %v", err)
			w.checkSet(c, fmt.Sprintf("the last set of builder %d", k), s, x.cur)
		}
		for _, x := range built {
			w.checkSet(c, fmt.Sprintf("build %d, looked at again at the end", x.n), x.s, x.want)
		}
		r.Max("most_ranges", int64(most))
		if len(bs) > 1 {
			c.Nontrivial()
		}
	})
}

func largeC23(r *Run) {
	r.Each("large", r.N(60, 2000), func(c *Case, i int) {
		w := widths[i%3]
		cur := w.scattered(c, 50+c.Rng.IntN(700))
		if c.Rng.IntN(2) == 0 { // one place where larger blocks fit, anywhere among the small ones
			l := w.B - uint8(5+c.Rng.IntN(5))
			v := c.Rng.Uint64() & w.mask(l)
			if len(cur) > 0 && c.Rng.IntN(2) == 0 {
				v = cur[c.Rng.IntN(len(cur))].lo & w.mask(l)
			}
			cur = cur.add(w.iv(pk{v, l}))
		}
		b := w.Builder()
		for _, x := range cur {
			b.AddRange(w.RangeFrom(x.lo, x.hi))
		}
		s, err := b.build()
		c.Check(err == nil, "build: %v", err)
		c.Op("a set of %d ranges", len(cur))
		choice := false
		for k := 0; k < 20; k++ {
			l := w.B - uint8(c.Rng.IntN(9))
			var best *pk
			lens := map[uint8]bool{}
			for _, x := range cur {
				for _, p := range w.decompose(x.lo, x.hi) {
					if p.l <= l {
						lens[p.l] = true
						if best == nil || p.l > best.l {
							best = &pk{p.v, p.l}
						}
					}
				}
			}
			id, n, ok := s.RFP(l)
			c.Op("RemoveFreePrefix(%d) = %v, %v", l, id, ok)
			c.Check(ok == (best != nil), "RemoveFreePrefix(%d) of a set of %d ranges (%d bit) returned %v; an aligned block fits: %v", l, len(cur), w.B, ok, best != nil)
			if !ok {
				w.checkSet(c, "the set after a failed RemoveFreePrefix", s, cur)
				continue
			}
			c.Check(id != nil && id.ID() == best.v && id.Length() == l, "RemoveFreePrefix(%d) of a set of %d ranges (%d bit) returned %v, want %d/%d", l, len(cur), w.B, id, best.v, l)
			choice = choice || len(lens) > 1
			if k%5 == 0 {
				w.checkSet(c, "the original set after RemoveFreePrefix", s, cur)
			}
			cur = cur.remove(w.iv(pk{best.v, l}))
			w.checkSet(c, "the set without the removed prefix", n, cur)
			s = n
		}
		r.Max("most_ranges", int64(len(cur)))
		if choice {
			c.Nontrivial()
		}
	})
}

// prefilled is a list of ids with spare room, as a caller of AppendIDs may have.
// Often they are neighbours of the range lo-hi to be appended, as in a list
// of several ranges one after another.
func (w *Width) prefilled(c *Case, lo, hi uint64) ([]tree.ID, []pk) {
	n := c.Rng.IntN(6)
	if c.Rng.IntN(8) == 0 {
		n = c.Rng.IntN(200)
	}
	ids := make([]tree.ID, 0, n+c.Rng.IntN(1+c.Rng.IntN(2*n+20)))
	var ps []pk
	for k := 0; k < n; k++ {
		l := uint8(c.Rng.IntN(int(w.B) + 1))
		v := c.Rng.Uint64()
		switch c.Rng.IntN(8) {
		case 0, 1:
			v, l = lo-1, w.B
		case 2:
			v, l = lo-1, w.B-uint8(c.Rng.IntN(int(w.B)+1))
		case 3:
			v, l = lo, w.B-uint8(c.Rng.IntN(3))
		case 4:
			v, l = hi+uint64(c.Rng.IntN(2)), w.B-uint8(c.Rng.IntN(3))
		}
		p := pk{v & w.mask(l), l}
		ids = append(ids, w.NewID(p.v, p.l))
		ps = append(ps, p)
	}
	return ids, ps
}
