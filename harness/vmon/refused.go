package main

import (
	"reflect"
	"strings"

	rtable "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/tree"
	"k8s.io/apimachinery/pkg/labels"
)

// C28: what comes with an error, and what comes without one.

func init() { checks["C28"] = checkC28 }

func nilEntry(es idxtable.Entries[int32]) bool {
	for _, e := range es {
		if e == nil {
			return true
		}
	}
	return false
}

// handout performs one call that hands something out and checks what it returns next to the error.
// It says whether the call was refused and how the operation changed the model, as an operation of the target.
func handout(c *Case, t target, g *gctx, o cop) (refused, checked bool) {
	v := labels.Set(nil)
	name := t.describe(o)
	none := func(ok bool, err error, f string, a ...any) {
		c.Check(ok, name+" fails with "+err.Error()+" and returns "+f, a...)
	}
	switch x := t.(type) {
	case *ixTarget:
		switch o.kind {
		case ixGet, ixDyn:
			f := func() (idxtable.Entry[int32], error) { return x.t.Get(o.a) }
			if o.kind == ixDyn {
				f = func() (idxtable.Entry[int32], error) { return x.t.ClaimDynamic(o.v) }
			}
			e, err := f()
			if err != nil {
				none(e == nil, err, "%v", e)
				return true, true
			}
			c.Check(e != nil, "%s succeeds without an entry", name)
			return false, true
		case ixSizeN:
			es, err := x.t.ClaimSize(o.a, o.v)
			if err != nil {
				none(len(es) == 0, err, "%d entries", len(es))
				return true, true
			}
			c.Check(uint64(len(es)) == o.a && !nilEntry(es), "%s succeeds with %d entries: %v", name, len(es), es)
			return false, true
		case ixFind:
			id, err := x.t.FindFree()
			if err != nil {
				none(id == 0, err, "%d", id)
			}
			return err != nil, true
		case ixFindRange, ixFindSize:
			f := func() ([]uint64, error) { return x.t.FindFreeRange(o.a, o.b) }
			n := o.b
			if o.kind == ixFindSize {
				f, n = func() ([]uint64, error) { return x.t.FindFreeSize(o.a) }, o.a
			}
			ids, err := f()
			if err != nil {
				none(len(ids) == 0, err, "%d ids", len(ids))
				return true, true
			}
			c.Check(uint64(len(ids)) == n, "%s succeeds with %d ids", name, len(ids))
			return false, true
		case ixGetAll:
			c.Check(!nilEntry(x.t.GetAll()), "%s lists an entry that is nil", name)
			return false, true
		}
	case *tbTarget:
		switch o.kind {
		case tbGet, tbClaimFree:
			f := func() (tree.Entry, error) { return x.t.Get(o.a) }
			if o.kind == tbClaimFree {
				v = vlabels(o.v)
				f = func() (tree.Entry, error) { return x.t.ClaimFree(v) }
			}
			return refusedEntry(c, name, f), true
		case tbFind:
			id, err := x.t.FindFree()
			if err != nil {
				none(id == 0, err, "%d", id)
			}
			return err != nil, true
		}
	case *ipTarget:
		switch ipToTb[o.kind] {
		case tbGet:
			rt, err := x.t.Get(x.adr[o.a])
			if err != nil {
				none(reflect.DeepEqual(rt, rtable.Route{}), err, "the route %v", rt)
				return true, true
			}
			c.Check(rt.Prefix().IsValid(), "%s succeeds without a route", name)
			return false, true
		case tbFind:
			a, err := x.t.FindFree()
			if err != nil {
				none(!a.IsValid(), err, "%v", a)
				return true, true
			}
			c.Check(a.IsValid(), "%s succeeds without an address", name)
			return false, true
		}
	case *trTarget:
		switch o.kind {
		case trGet, trClaimFree:
			f := func() (tree.Entry, error) { return x.t.Get(x.id(o.a)) }
			if o.kind == trClaimFree {
				f = func() (tree.Entry, error) { return x.t.ClaimFree(vlabels(o.v)) }
			}
			return refusedEntry(c, name, f), true
		}
	}
	return false, false
}

func refusedEntry(c *Case, name string, f func() (tree.Entry, error)) bool {
	e, err := f()
	if err != nil {
		c.Check(e == nil, "%s fails with %v and returns the entry %v", name, err, e)
		return true
	}
	c.Check(e != nil && e.ID() != nil, "%s succeeds without an entry: %v", name, e)
	return false
}

func checkC28(r *Run) {
	r.rule = "objects: histories of all operations on an object of every kind, brought to emptiness or exhaustion now and then, with calls that hand something out (accepted and refused ones) in between, whose every result is looked at, and the content compared before and after refused calls. ids: strings that are no ranges, mask lengths beyond the width, sets without room, bit sizes beyond the width, and ones that are. Non-trivial = at least one call was refused and one accepted."
	kindsOf := []string{"idxtable", "windows", "iptable", "trees"}
	r.Each("objects", r.N(1500, 60000), func(c *Case, i int) {
		rng := c.Rng
		t := mixTarget(kindsOf[i%4], rng, i/4)
		for t.slots() > 60 {
			t = mixTarget(kindsOf[i%4], rng, i/4)
		}
		c.Op("%s with %d slots", t.name(), t.slots())
		g := &gctx{}
		list := cop{kind: kindIdx(t, "GetAll")}
		var grow, shrink []int
		for k, n := range t.kinds()[:t.lin()] {
			if strings.HasPrefix(n, "Claim") {
				grow = append(grow, k)
			}
			if strings.HasPrefix(n, "Release") {
				shrink = append(shrink, k)
			}
		}
		refused, accepted := 0, 0
		for phase := 0; phase < 6; phase++ {
			ks := [][]int{grow, shrink, append(grow, shrink...)}[phase%3]
			for n := rng.IntN(2 * (t.slots() + 2)); n > 0; n-- {
				o := t.gen(rng, ks[rng.IntN(len(ks))], int32(1+rng.IntN(50)))
				c.Op("%s = %s", t.describe(o), shortOut(t.do(g, o)))
			}
			for n := 10; n > 0; n-- {
				k := rng.IntN(t.lin())
				o := t.gen(rng, k, int32(1+rng.IntN(50)))
				if rng.IntN(2) == 0 {
					o = t.bad(rng, k, o.v)
				}
				before := t.do(g, list)
				no, ok := handout(c, t, g, o)
				if !ok {
					continue
				}
				c.Op("%s: refused %v", t.describe(o), no)
				if !no {
					accepted++
					continue
				}
				refused++
				after := t.do(g, list)
				c.Check(before == after, "%s is refused, and the content goes from %s to %s", t.describe(o), shortOut(before), shortOut(after))
			}
		}
		r.Count("refused", int64(refused))
		r.Count("accepted", int64(accepted))
		if refused > 0 && accepted > 0 {
			c.Nontrivial()
		}
	})
	r.Each("ids", r.N(900, 30000), func(c *Case, i int) {
		rng := c.Rng
		w := widths[i%3]
		refused, accepted := 0, 0
		note := func(err bool) {
			if err {
				refused++
			} else {
				accepted++
			}
		}
		for k := 0; k < 12; k++ {
			a, b := w.bound(c), w.bound(c)
			s := num(min(a, b)) + "-" + num(max(a, b))
			if k%3 > 0 {
				s = []string{"", "-", num(a), num(a) + "-", "-" + num(b), s + "-1", "x-" + num(b), num(a) + "-x", num(a) + "-" + num(b) + " ", "99999999999999999999999-" + num(b),
					num(a) + "-99999999999999999999999", "-1-" + num(b), num(a) + "--1", num(a) + ".0-" + num(b)}[rng.IntN(14)]
			}
			rg, err := w.Parse(s)
			c.Op("ParseRange(%q): %v", s, err != nil)
			note(err != nil)
			if err != nil {
				c.Check(rg == nil, "ParseRange(%q) fails with %v and returns a range", s, err)
			} else {
				c.Check(rg != nil && rg.From() != nil && rg.To() != nil, "ParseRange(%q) succeeds without a range", s)
			}
			l := uint8(rng.IntN(256))
			if k%2 == 0 {
				l = w.B + uint8(rng.IntN(3)) - 1
			}
			id, err := w.NewID(a, w.B).Mask(l)
			c.Op("Mask(%d): %v", l, err != nil)
			note(err != nil)
			c.Check((id == nil) == (err != nil), "Mask(%d) of a %d-bit id returns %v and error %v", l, w.B, id, err)
			t, err := w.NewTree("t", l)
			note(err != nil)
			c.Check((t == nil) == (err != nil), "New(%d) of width %d returns %v and error %v", l, w.B, t, err)

			bl := w.Builder()
			for n := rng.IntN(4); n > 0; n-- {
				x := w.bound(c)
				p := pk{x & w.mask(w.B-uint8(n)), w.B - uint8(n)}
				bl.AddId(w.NewID(p.v, p.l))
				bl.RemoveId(w.NewID(x, w.B))
			}
			set, err := bl.build()
			c.Check(err == nil && set != nil, "a set of valid prefixes: %v %v", set, err)
			fl := w.B - uint8(rng.IntN(5))
			got, rest, ok := set.RFP(fl)
			c.Op("RemoveFreePrefix(%d): %v", fl, ok)
			note(!ok)
			c.Check((got != nil) == ok, "RemoveFreePrefix(%d) says %v and returns %v", fl, ok, got)
			c.Check(!ok || rest != nil, "RemoveFreePrefix(%d) succeeds without a rest", fl)
		}
		r.Count("refused", int64(refused))
		r.Count("accepted", int64(accepted))
		if refused > 0 && accepted > 0 {
			c.Nontrivial()
		}
	})
}
