package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
)

func init() { checks["C25"] = checkC25 }

// gval is a value of the generic tree; it carries its prefix because the iterator does not report it.
type gval struct {
	p   pk
	cls int // what coarse matching functions look at
	n   int // unique, except for deliberate duplicates
}

func (v gval) String() string { return fmt.Sprintf("%v:%d.%d", v.p, v.cls, v.n) }

type genTree struct {
	w    *Width
	t    *tree.Tree[gval]
	m    map[pk][]gval
	pool []pk
	uid  int
	grow int // of 20 operations, how many more are Add
	ncls int
	most int // largest number of values seen at one prefix
	st   struct{ dup, matched, partial, set, del int }
}

func newGenTree(c *Case, w *Width) *genTree {
	tm := newTreeModel(w, w.B)
	g := &genTree{w: w, t: tree.NewTree[gval]("g", w.LeftBit, w.B), m: map[pk][]gval{}, pool: tm.pool(c, 3+c.Rng.IntN(16)), ncls: 3}
	c.Op("NewTree(%d) pool %v", w.B, g.pool)
	return g
}

func (g *genTree) clone() *genTree {
	n := &genTree{w: g.w, t: g.t.Clone(), m: map[pk][]gval{}, pool: g.pool, uid: g.uid + 10000, grow: g.grow, ncls: g.ncls}
	for k, v := range g.m {
		n.m[k] = append([]gval(nil), v...)
	}
	return n
}

func canon(vs []gval) string {
	s := make([]string, len(vs))
	for i, v := range vs {
		s[i] = v.String()
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// check compares the complete iteration with the model.
func (g *genTree) check(c *Case) {
	c.R.beats.Add(1)
	var ks []pk
	for k := range g.m {
		ks = append(ks, k)
	}
	sortPks(ks)
	it := g.t.Iterate()
	i := 0
	var buf []gval
	for it.Next() {
		vs := it.Vals()
		buf = it.ValsWithBuffer(buf[:0])
		if canon(vs) != canon(buf) {
			c.Fail("Vals %s and ValsWithBuffer %s differ", canon(vs), canon(buf))
		}
		if i >= len(ks) {
			c.Fail("iteration visits [%s] beyond the %d expected prefixes", canon(vs), len(ks))
		}
		if canon(vs) != canon(g.m[ks[i]]) {
			c.Fail("iteration position %d holds [%s], want prefix %v with [%s]", i, canon(vs), ks[i], canon(g.m[ks[i]]))
		}
		i++
	}
	if i != len(ks) {
		c.Fail("iteration visits %d prefixes, want %v", i, ks)
	}
}

type gmatch struct {
	name string
	f    func(payload, val gval) bool
}

var gmatches = []gmatch{
	{"eq", func(a, b gval) bool { return a == b }},
	{"cls", func(a, b gval) bool { return a.cls == b.cls }},
	{"older", func(a, b gval) bool { return a.n < b.n }}, // asymmetric: payload older than the argument
	{"any", func(a, b gval) bool { return true }},
	{"none", func(a, b gval) bool { return false }},
	{"clsnext", func(a, b gval) bool { return a.cls == b.cls+1 }},            // matches no equal value
	{"near", func(a, b gval) bool { return a.n/32 == b.n/32 && a.n != b.n }}, // the same
	{"clsge", func(a, b gval) bool { return a.cls >= b.cls }},
}

func (g *genTree) id(c *Case, p pk) tree.ID {
	tm := &treeModel{w: g.w, L: g.w.B}
	return tm.id(c, p)
}

func (g *genTree) step(c *Case) {
	p := g.pool[c.Rng.IntN(len(g.pool))]
	id := g.id(c, p)
	v := gval{p, c.Rng.IntN(g.ncls), g.uid}
	g.uid++
	vs := g.m[p]
	switch op := c.Rng.IntN(20); {
	case op < 9+g.grow: // Add
		var mf tree.MatchesFunc[gval]
		name := "nil"
		if c.Rng.IntN(2) == 0 {
			x := gmatches[c.Rng.IntN(len(gmatches))]
			mf, name = x.f, x.name
		}
		if len(vs) > 0 && c.Rng.IntN(4) == 0 {
			v = vs[c.Rng.IntN(len(vs))] // the same value again
			g.st.dup++
		}
		match := false
		for _, x := range vs {
			match = match || mf != nil && mf(x, v)
		}
		ok, n := g.t.Add(id, v, mf)
		c.Op("Add(%v,%v,%s) = %v,%d", p, v, name, ok, n)
		if match {
			g.st.matched++
		} else {
			g.m[p] = append(vs, v)
			g.most = max(g.most, len(vs)+1)
		}
		c.Check(ok == !match, "Add(%v) reports an added value: %v, a value matched: %v", v, ok, match)
		c.Check(n == len(g.m[p]), "Add(%v) reports %d values at %v, want %d", v, n, p, len(g.m[p]))
	case op < 12+g.grow*5/8: // Set, the single-value interface
		if len(vs) > 1 {
			return
		}
		ok, n := g.t.Set(id, v)
		c.Op("Set(%v,%v) = %v,%d", p, v, ok, n)
		c.Check(ok == (len(vs) == 0) && n == 1, "Set at %v with %d values returned %v, %d", p, len(vs), ok, n)
		g.m[p] = []gval{v}
		g.st.set++
	default:
		if c.Rng.IntN(3) > 0 && len(g.m) > 0 { // mostly where there is something
			var ks []pk
			for k := range g.m {
				ks = append(ks, k)
			}
			sortPks(ks)
			p = ks[c.Rng.IntN(len(ks))]
			id = g.id(c, p)
			vs = g.m[p]
		}
		x := gmatches[c.Rng.IntN(len(gmatches))]
		if c.Rng.IntN(2) == 0 {
			x = gmatches[0]
		}
		if len(vs) > 0 && c.Rng.IntN(4) > 0 {
			v = vs[c.Rng.IntN(len(vs))]
		}
		v.p = p
		var keep []gval
		for _, y := range vs {
			if !x.f(y, v) {
				keep = append(keep, y)
			}
		}
		var n int
		if c.Rng.IntN(2) == 0 {
			n = g.t.Delete(id, x.f, v)
		} else {
			n = g.t.DeleteWithBuffer(make([]gval, c.Rng.IntN(3), 8), id, x.f, v)
		}
		c.Op("Delete(%v,%s,%v) = %d", p, x.name, v, n)
		c.Check(n == len(vs)-len(keep), "Delete(%v, %s, %v) reports %d deleted, want %d of [%s]", p, x.name, v, n, len(vs)-len(keep), canon(vs))
		if len(keep) > 0 && len(keep) < len(vs) {
			g.st.partial++
		}
		if n > 0 {
			g.st.del++
		}
		if len(keep) == 0 {
			delete(g.m, p)
		} else {
			g.m[p] = keep
		}
	}
}

func checkC25(r *Run) {
	r.rule = "a case is one generic multi-value tree with a history of 80 Add (no, exact, coarse and asymmetric matching functions, repeated values), Set (on prefixes with at most one value) and Delete calls over related prefixes; return values and the complete iteration are compared with a map from prefix to value list after every step. values: 600 operations on 3 to 6 prefixes that come to hold tens of values each. crowded: prefixes of up to thousands of values, related to each other, coming and going. types: values of all kinds, nil and not comparable ones among them. many: one prefix with over 70000 values next to others. Non-trivial: the history added a repeated value, matched an existing one and deleted some but not all values of a prefix."
	r.Each("history", r.N(2400, 60000), func(c *Case, i int) {
		g := newGenTree(c, widths[i%3])
		for k := 0; k < 80; k++ {
			g.step(c)
			g.check(c)
		}
		if g.st.dup > 0 && g.st.matched > 0 && g.st.partial > 0 {
			c.Nontrivial()
		}
		r.Count("partial_deletes", int64(g.st.partial))
		r.Count("sets", int64(g.st.set))
	})
	r.Each("walk", r.N(60, 900), func(c *Case, i int) {
		w := widths[i%3]
		g := newGenTree(c, w)
		g.pool = nil
		for l := uint8(0); l <= 3; l++ {
			for v := uint64(0); v < 1<<l; v++ {
				p := pk{v << (w.B - l) & w.Max, l}
				if l == 0 {
					p.v = 0
				}
				g.pool = append(g.pool, p)
			}
		}
		for k := 0; k < 1200; k++ {
			g.step(c)
			g.check(c)
		}
		c.Nontrivial()
	})
	r.Each("values", r.N(240, 6000), func(c *Case, i int) { // few prefixes with many values each
		g := newGenTree(c, widths[i%3])
		if len(g.pool) > 6 {
			g.pool = g.pool[:3+c.Rng.IntN(4)]
		}
		g.ncls = []int{3, 20, 200}[c.Rng.IntN(3)]
		for k := 0; k < 600; k++ {
			g.grow = []int{8, 8, -5}[k/100%3]
			g.step(c)
			g.check(c)
		}
		r.Max("most_values_at_a_prefix", int64(g.most))
		if g.most > 8 && g.st.partial > 0 {
			c.Nontrivial()
		}
	})
	r.Each("crowded", r.N(48, 1500), func(c *Case, i int) { // prefixes of hundreds of values coming to be and going away next to each other
		g := newGenTree(c, widths[i%3])
		w := g.w
		base := c.Rng.Uint64() & w.Max
		g.pool = []pk{{0, 0}}
		for len(g.pool) < 7 { // relatives: close together, over and under each other
			l := w.B - uint8(c.Rng.IntN(4))
			if c.Rng.IntN(4) == 0 {
				l = 1 + uint8(c.Rng.IntN(int(w.B)))
			}
			g.pool = append(g.pool, pk{(base ^ c.Rng.Uint64N(8)) & w.mask(l), l})
		}
		all := func(a, b gval) bool { return true }
		moves := 0
		for k := 0; k < 24; k++ {
			p := g.pool[c.Rng.IntN(len(g.pool))]
			if vs := g.m[p]; len(vs) > 0 && c.Rng.IntN(2) == 0 {
				n := g.t.Delete(g.id(c, p), all, gval{})
				c.Op("all of %v deleted: %d", p, n)
				c.Check(n == len(vs), "Delete of all at %v reports %d, want %d", p, n, len(vs))
				delete(g.m, p)
				moves++
			} else {
				more := []int{1, 1, 2, 20, 127, 128, 255, 256, 257, 300, 511, 512, 700}[c.Rng.IntN(13)]
				for x := 0; x < more; x++ {
					v := gval{p, x & 3, g.uid}
					g.uid++
					ok, n := g.t.Add(g.id(c, p), v, nil)
					g.m[p] = append(g.m[p], v)
					c.Check(ok && n == len(g.m[p]), "Add(%v) returned %v, %d, want %d values", v, ok, n, len(g.m[p]))
				}
				c.Op("%d values added at %v", more, p)
			}
			g.check(c)
		}
		if moves > 3 {
			c.Nontrivial()
		}
	})
	r.Each("types", r.N(120, 3000), func(c *Case, i int) { // values of all kinds, nil ones and not comparable ones among them
		w := widths[i%3]
		pool := newTreeModel(w, w.B).pool(c, 3+c.Rng.IntN(6))
		t := tree.NewTree[any]("g", w.LeftBit, w.B)
		m := map[pk][]any{}
		c.Op("NewTree[any](%d) pool %v", w.B, pool)
		match := func(a, b any) bool { return same(a, b) }
		for k := 0; k < 60; k++ {
			p := pool[c.Rng.IntN(len(pool))]
			id, v := w.NewID(p.v, p.l), anyValue(c.Rng)
			found := -1
			for x, y := range m[p] {
				if same(y, v) {
					found = x
				}
			}
			switch op := c.Rng.IntN(8); {
			case op < 2:
				ok, n := t.Add(id, v, nil)
				m[p] = append(m[p], v)
				c.Check(ok && n == len(m[p]), "Add of the %T returned %v, %d, want %d values", v, ok, n, len(m[p]))
			case op < 4:
				ok, n := t.Add(id, v, match)
				if found < 0 {
					m[p] = append(m[p], v)
				}
				c.Check(ok == (found < 0) && n == len(m[p]), "Add of the %T, present %v, returned %v, %d, want %d values", v, found >= 0, ok, n, len(m[p]))
			case op == 4 && len(m[p]) < 2:
				ok, n := t.Set(id, v)
				c.Check(ok == (len(m[p]) == 0) && n == 1, "Set of the %T over %d values returned %v, %d", v, len(m[p]), ok, n)
				m[p] = []any{v}
			case op > 4:
				var keep []any
				for _, y := range m[p] {
					if !same(y, v) {
						keep = append(keep, y)
					}
				}
				n := t.Delete(id, match, v)
				c.Check(n == len(m[p])-len(keep), "Delete of the %T reports %d, want %d of %d", v, n, len(m[p])-len(keep), len(m[p]))
				if m[p] = keep; len(keep) == 0 {
					delete(m, p)
				} else if n > 0 {
					c.Nontrivial()
				}
			}
			c.Mix(uint64(k)<<32 | p.v)
			var ks []pk
			for k := range m {
				ks = append(ks, k)
			}
			sortPks(ks)
			x := 0
			for it := t.Iterate(); it.Next(); x++ {
				vs := it.Vals()
				if x >= len(ks) || !sameValues(vs, m[ks[x]]) {
					c.Fail("iteration position %d of %d holds %v", x, len(ks), vs)
				}
			}
			c.Check(x == len(ks), "iteration visits %d prefixes, want %d", x, len(ks))
		}
	})
	r.Each("many", 3, func(c *Case, i int) {
		w := widths[i]
		t := tree.NewTree[gval]("g", w.LeftBit, w.B)
		ps := []pk{{0, 0}, {0, w.B}, {w.Max, w.B}, {w.Max &^ w.span(3), 3}}
		const n = 70000
		for _, p := range ps {
			t.Add(w.NewID(p.v, p.l), gval{p, 0, -1}, nil)
		}
		big := ps[1]
		for k := 0; k < n; k++ {
			ok, cnt := t.Add(w.NewID(big.v, big.l), gval{big, 1, k}, nil)
			c.Beat()
			if !ok || cnt != k+2 {
				c.Fail("Add of value %d at %v returned %v, %d", k+2, big, ok, cnt)
			}
		}
		c.Op("width %d: %d values at %v, one at each of %v", w.B, n+1, big, ps)
		it := t.Iterate()
		want := []pk{ps[0], ps[1], ps[3], ps[2]}
		for x := 0; it.Next(); x++ {
			c.Check(x < len(want), "iteration visits more than %d prefixes", len(want))
			vs := it.Vals()
			wn := 1
			if want[x] == big {
				wn = n + 1
			}
			c.Check(len(vs) == wn, "prefix %v holds %d values, want %d", want[x], len(vs), wn)
			seen := map[int]bool{}
			for _, v := range vs {
				c.Check(v.p == want[x] && !seen[v.n], "prefix %v lists the value %v (of another prefix, or twice)", want[x], v)
				seen[v.n] = true
			}
		}
		d := t.Delete(w.NewID(big.v, big.l), func(a, b gval) bool { return a.cls == b.cls }, gval{big, 1, 0})
		c.Check(d == n, "Delete removed %d values, want %d", d, n)
		tot := 0
		for it := t.Iterate(); it.Next(); {
			tot += len(it.Vals())
		}
		c.Check(tot == len(ps), "%d values are left, want %d", tot, len(ps))
		c.Nontrivial()
	})
	largeC25(r)
}
