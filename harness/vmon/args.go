package main

import (
	"fmt"
	"math/rand/v2"
	"net/netip"
	"strings"

	rtable "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"k8s.io/apimachinery/pkg/labels"
)

// C30: what the caller hands in. Every argument is kept together with a picture of it, and the pictures are taken again.

func init() { checks["C30"] = checkC30 }

type argument struct {
	what string
	was  string
	now  func() string
}

type arguments struct {
	c  *Case
	as []argument
}

func (x *arguments) keep(what string, now func() string) {
	if len(x.as) < 600 {
		x.as = append(x.as, argument{what, now(), now})
	}
}

func (x *arguments) check(after string) {
	for _, a := range x.as {
		if now := a.now(); now != a.was {
			x.c.Fail("after %s, the %s handed in earlier is %s instead of %s", after, a.what, shortOut(now), shortOut(a.was))
		}
	}
	x.c.R.Count("arguments_compared", int64(len(x.as)))
}

func (x *arguments) labels(rng *rand.Rand) labels.Set {
	var ls labels.Set
	switch n := rng.IntN(6); n {
	case 0:
	case 1:
		ls = labels.Set{}
	default:
		ls = labels.Set{"owner": fmt.Sprint(rng.IntN(4))}
		for k := 2; k < n; k++ {
			ls[[]string{"k0", "k1", "k2", "k3", "", "K1", " k1"}[rng.IntN(7)]] = []string{"0", "1", "2", "", " x ", "Y"}[rng.IntN(6)]
		}
	}
	x.keep("label set", func() string { return fmt.Sprint(ls == nil, len(ls)) + lkey(ls) })
	return ls
}

func (x *arguments) id(w *Width, v uint64, l uint8) tree.ID {
	id := w.NewID(v, l)
	if l <= w.B && v&w.mask(l) == v && x.c.Rng.IntN(2) == 0 {
		// the same as a range states it
		if ids := w.RangeFrom(v, v|^w.mask(l)&w.Max).IDs(); len(ids) == 1 {
			id = ids[0]
		}
	}
	x.keep("id", func() string { return fmt.Sprintf("%d/%d", id.ID(), id.Length()) })
	return id
}

func (x *arguments) selector(rng *rand.Rand) labels.Selector {
	set := labels.Set{"owner": fmt.Sprint(rng.IntN(4))}
	x.keep("label set of a selector", func() string { return lkey(set) })
	sel := labels.SelectorFromSet(set)
	if rng.IntN(4) == 0 {
		sel, _ = labels.Parse("owner in (3,1,2),!k1")
	}
	x.keep("selector", func() string {
		return sel.String()
	})
	return sel
}

func (x *arguments) ranges(rs []tree.Range) string {
	var b strings.Builder
	for _, r := range rs {
		if r == nil {
			b.WriteString("nil ")
			continue
		}
		fmt.Fprintf(&b, "%d/%d-%d/%d ", r.From().ID(), r.From().Length(), r.To().ID(), r.To().Length())
	}
	return b.String()
}

func checkC30(r *Run) {
	r.rule = "every label set, id, range, set, route, data pointer, selector and list handed to an operation is compared with its value at that time again and again while a history of claims, updates (most of them of ids in use), releases, selections and set steps goes on. Distinct = histories; non-trivial = ids were overwritten or updated, or sets combined, while their earlier arguments were watched."
	r.Each("claims", r.N(1500, 60000), func(c *Case, i int) {
		rng := c.Rng
		x := &arguments{c: c}
		w := widths[(i/4)%3]
		overwritten := 0
		switch i % 4 {
		case 0, 1:
			bits := uint8(2 + rng.IntN(5))
			t, err := w.NewTree("t", bits)
			if err != nil {
				return
			}
			ts := []gtree.GTree{t}
			for n := 20 + rng.IntN(80); n > 0; n-- {
				t := ts[rng.IntN(len(ts))]
				l := w.B - uint8(rng.IntN(3))
				id := x.id(w, rng.Uint64N(1<<bits)&w.mask(l), l)
				what := ""
				switch rng.IntN(14) {
				case 0, 1, 2:
					what = "ClaimID " + id.String()
					_ = t.ClaimID(id, x.labels(rng))
				case 3, 4, 5:
					what = "Update " + id.String()
					_ = t.Update(id, x.labels(rng))
					overwritten++
				case 6:
					what = "ClaimFree"
					_, _ = t.ClaimFree(x.labels(rng))
				case 7:
					a := rng.Uint64N(1 << bits)
					s := num(a) + "-" + num(a+rng.Uint64N(1<<bits-a))
					what = "ClaimRange " + s
					_ = t.ClaimRange(s, x.labels(rng))
					overwritten++
				case 8:
					what = "ReleaseID " + id.String()
					_ = t.ReleaseID(id)
				case 9:
					what = "ReleaseByLabel"
					_ = t.ReleaseByLabel(x.selector(rng))
				case 10:
					what = "GetByLabel"
					t.GetByLabel(x.selector(rng))
				case 11:
					what = "Children, Parents and Get " + id.String()
					t.Children(id)
					t.Parents(id)
					_, _ = t.Get(id)
				case 12:
					what = "Clone"
					if len(ts) < 4 {
						ts = append(ts, t.Clone())
					}
				case 13:
					what = "a bad call"
					_ = t.Update(x.id(w, w.Max, w.B), x.labels(rng))
					_ = t.ClaimRange("7-3", x.labels(rng))
				}
				c.Op("%s", what)
				x.check(what)
			}
		case 2:
			s, n := rng.Uint64()&w.Max, 2+rng.Uint64N(30)
			s = min(s, w.Max-n+1)
			t := w.NewTable(s, s+n-1)
			for k := 20 + rng.IntN(60); k > 0; k-- {
				id := s + rng.Uint64N(n)
				what := ""
				switch rng.IntN(8) {
				case 0, 1:
					what = "Claim " + num(id)
					_ = t.Claim(id, x.labels(rng))
				case 2, 3:
					what = "Update " + num(id)
					_ = t.Update(id, x.labels(rng))
					overwritten++
				case 4:
					what = "ClaimFree"
					_, _ = t.ClaimFree(x.labels(rng))
				case 5:
					what = "Release " + num(id)
					_ = t.Release(id)
				case 6:
					what = "GetByLabel"
					t.GetByLabel(x.selector(rng))
				case 7:
					what = "Get and GetAll"
					_, _ = t.Get(id)
					t.GetAll()
				}
				c.Op("%s", what)
				x.check(what)
			}
		case 3:
			from := netip.MustParseAddr([]string{"10.0.0.250", "2001:db8::fff0"}[rng.IntN(2)])
			to := from
			for k := 0; k < 20; k++ {
				to = to.Next()
			}
			t := iptable.New(from, to)
			ix := idxtable.NewTable[*[2]int](20)
			for k := 20 + rng.IntN(60); k > 0; k-- {
				a := from
				for n := rng.IntN(21); n > 0; n-- {
					a = a.Next()
				}
				route := func() rtable.Route {
					ls := x.labels(rng)
					data := map[string]any{"n": k}
					rt := rtable.NewRoute(netip.PrefixFrom(a, a.BitLen()), ls, data)
					x.keep("route", func() string { return fmt.Sprint(rt.Prefix(), lkey(ls), rt.String(), data) })
					return rt
				}
				d := &[2]int{k, rng.IntN(9)}
				x.keep("data", func() string { return fmt.Sprint(*d) })
				id := rng.Uint64N(20)
				what := ""
				switch rng.IntN(7) {
				case 0, 1:
					what = "Claim " + a.String()
					_ = t.Claim(a.String(), route())
					_ = ix.Claim(id, d)
				case 2, 3:
					what = "Update " + a.String()
					_ = t.Update(a.String(), route())
					_ = ix.Update(id, d)
					overwritten++
				case 4:
					what = "Release " + a.String()
					_ = t.Release(a.String())
					_ = ix.Release(id)
				case 5:
					what = "GetByLabel"
					t.GetByLabel(x.selector(rng))
					_, _ = ix.ClaimDynamic(d)
				case 6:
					what = "Get and GetAll"
					_, _ = t.Get(a.String())
					t.GetAll()
					_, _ = ix.ClaimSize(2, d)
				}
				c.Op("%s", what)
				x.check(what)
			}
		}
		if overwritten > 0 {
			c.Nontrivial()
		}
	})
	r.Each("sets", r.N(600, 20000), func(c *Case, i int) {
		rng := c.Rng
		x := &arguments{c: c}
		w := widths[i%3]
		base := rng.Uint64() & w.Max &^ 255
		bs := []setBuilder{w.Builder(), w.Builder()}
		var sets []*idSet
		for n := 10 + rng.IntN(40); n > 0; n-- {
			b := bs[rng.IntN(len(bs))]
			lo, hi := base+rng.Uint64N(256), base+rng.Uint64N(256)
			lo, hi = min(lo, hi), max(lo, hi)
			rg := w.RangeFrom(lo, hi)
			l := w.B - uint8(rng.IntN(6))
			what := ""
			switch rng.IntN(9) {
			case 0, 1:
				x.keep("range", func() string { return x.ranges([]tree.Range{rg}) })
				what = "AddRange " + rg.String()
				b.AddRange(rg)
			case 2:
				x.keep("range", func() string { return x.ranges([]tree.Range{rg}) })
				what = "RemoveRange " + rg.String()
				b.RemoveRange(rg)
			case 3:
				what = "AddId"
				b.AddId(x.id(w, lo, l))
			case 4:
				what = "RemoveId"
				b.RemoveId(x.id(w, lo, l))
			case 5:
				what = "IPSet"
				if s, err := b.build(); err == nil {
					sets = append(sets, s)
					x.keep("set", func() string { return x.ranges(s.Ranges()) + idsStr(s.IDs()) })
				}
			case 6:
				if len(sets) > 0 {
					what = "AddSet"
					b.addSet(sets[rng.IntN(len(sets))])
				}
			case 7:
				if len(sets) > 0 {
					s := sets[rng.IntN(len(sets))]
					what = "RemoveFreePrefix"
					if _, rest, ok := s.RFP(l); ok {
						sets = append(sets, rest)
						x.keep("set", func() string { return x.ranges(rest.Ranges()) })
					}
				}
			case 8:
				what = "AppendIDs"
				dst := make([]tree.ID, 0, 1+rng.IntN(40))
				for k := rng.IntN(5); k >= 0; k-- {
					dst = append(dst, w.NewID((base+rng.Uint64N(256))&w.mask(l), l))
				}
				x.keep("list", func() string { return idsStr(dst) })
				rg.AppendIDs(dst)
			}
			c.Op("%s", what)
			x.check(what)
		}
		c.Nontrivial()
	})
}
