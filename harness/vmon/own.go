package main

import (
	"math/rand/v2"
	"net/netip"
	"slices"
	"strings"

	rtable "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/tree"
	"k8s.io/apimachinery/pkg/labels"
)

// The "own" sections: lists of all sizes are asked for twice, one of the two is overwritten, reordered or appended to, and
// neither the other one nor what is listed next may change by it; nor may later operations change the lists already handed
// out. What is listed is compared with the content each time.

// handed is a returned list.
type handed interface {
	str() string
	wreck(rng *rand.Rand) string
}

type handedList[T any] struct {
	l []T
	r func(T) string
}

func (h handedList[T]) str() string {
	var b strings.Builder
	for _, x := range h.l {
		b.WriteString(h.r(x))
		b.WriteByte(' ')
	}
	return b.String()
}

func (h handedList[T]) wreck(rng *rand.Rand) string {
	var zero T
	switch rng.IntN(5) {
	case 0:
		slices.Reverse(h.l)
		return "reversed"
	case 1:
		for l := h.l; len(l) < cap(h.l); {
			l = append(l, zero)
		}
		return "appended to"
	case 2:
		if len(h.l) > 0 {
			h.l[rng.IntN(len(h.l))] = zero
		}
		return "overwritten at one place"
	case 3:
		_ = append(h.l[:len(h.l)/2], make([]T, len(h.l)-len(h.l)/2)...)
		return "cut in half and appended to"
	}
	for i := range h.l {
		h.l[i] = zero
	}
	return "overwritten"
}

type ownList struct {
	what string
	get  func() handed
	want func(vals []int32) string
}

type ownObj struct {
	name  string
	n     int
	set   func(k int, v int32) error
	upd   func(k int, v int32) error
	del   func(k int) error
	lists []ownList
}

func renderWhere(vals []int32, elem func(k int, v int32) string, which func(k int, v int32) bool) string {
	var b strings.Builder
	for k, v := range vals {
		if which(k, v) {
			b.WriteString(elem(k, v))
			b.WriteByte(' ')
		}
	}
	return b.String()
}

func stored(k int, v int32) bool { return v != 0 }

func entryStr(e tree.Entry) string {
	if e == nil {
		return "nil"
	}
	return num(e.ID().ID()) + "/" + num(uint64(e.ID().Length())) + ":" + e.Labels()["v"]
}

func ownIdx(c *Case, prop string, n int) *ownObj {
	t := idxtable.NewTable[int32](uint64(n) + 10)
	num32 := func(v int32) string { return num(uint64(v)) }
	ids := func(l []uint64, err error) handed { return handedList[uint64]{l, num} }
	o := &ownObj{name: "idxtable", n: n}
	o.set = func(k int, v int32) error { return t.Claim(uint64(k), v) }
	o.upd = func(k int, v int32) error { return t.Update(uint64(k), v) }
	o.del = func(k int) error { return t.Release(uint64(k)) }
	elem := func(k int, v int32) string { return num(uint64(k)) + ":" + num32(v) }
	switch prop {
	case "C04":
		o.lists = []ownList{{"GetAll", func() handed {
			return handedList[idxtable.Entry[int32]]{t.GetAll(), func(e idxtable.Entry[int32]) string {
				if e == nil {
					return "nil"
				}
				return num(e.ID()) + ":" + num32(e.Data())
			}}
		}, func(vals []int32) string { return renderWhere(vals, elem, stored) }}}
	case "C02", "C03":
		// what is asked for are the free ids: those not held and the ten after
		lowest := func(from, w int, any bool) func(vals []int32) string {
			return func(vals []int32) string {
				var b strings.Builder
				left := w
				for k := from; k < n+10 && left > 0; k++ {
					if k >= n || vals[k] == 0 {
						b.WriteString(num(uint64(k)) + " ")
						left--
					} else if !any {
						return ""
					}
				}
				return b.String()
			}
		}
		if prop == "C02" {
			for _, q := range [][2]int{{n, 10}, {n + 1, 3}, {n / 2, n/2 + 1}, {n / 4, n/4 + 1}, {n - 1, 5}} {
				o.lists = append(o.lists, ownList{"FindFreeRange", func() handed { return ids(t.FindFreeRange(uint64(q[0]), uint64(q[1]))) }, lowest(q[0], q[1], false)})
			}
		} else {
			for _, w := range []int{1, 2, 5, 10} {
				o.lists = append(o.lists, ownList{"FindFreeSize", func() handed { return ids(t.FindFreeSize(uint64(w))) }, lowest(0, w, true)})
			}
		}
	}
	return o
}

func ownTab(c *Case, i, n int) *ownObj {
	w := widths[i%3]
	start := []uint64{0, 7, w.Max - uint64(n) - 50}[c.Rng.IntN(3)]
	t := w.NewTable(start, start+uint64(n)+5)
	id := func(k int) uint64 { return start + uint64(k) }
	o := &ownObj{name: "table" + num(uint64(w.B)), n: n}
	o.set = func(k int, v int32) error { return t.Claim(id(k), vlabels(v)) }
	o.upd = func(k int, v int32) error { return t.Update(id(k), vlabels(v)) }
	o.del = func(k int) error { return t.Release(id(k)) }
	elem := func(k int, v int32) string { return num(id(k)) + "/" + num(uint64(w.B)) + ":" + num(uint64(v)) }
	o.lists = entryLists(elem, t.GetAll, t.GetByLabel)
	return o
}

func entryLists(elem func(k int, v int32) string, all func() tree.Entries, by func(labels.Selector) tree.Entries) []ownList {
	ls := []ownList{{"GetAll", func() handed { return handedList[tree.Entry]{all(), entryStr} }, func(vals []int32) string { return renderWhere(vals, elem, stored) }}}
	for p := uint64(0); p < 2; p++ {
		sel, f := parityOf(p)
		ls = append(ls, ownList{"GetByLabel", func() handed { return handedList[tree.Entry]{by(sel), entryStr} },
			func(vals []int32) string { return renderWhere(vals, elem, func(k int, v int32) bool { return f(v) }) }})
	}
	return append(ls, ownList{"GetByLabel(everything)", func() handed { return handedList[tree.Entry]{by(labels.Everything()), entryStr} },
		func(vals []int32) string { return renderWhere(vals, elem, stored) }})
}

func ownIP(c *Case, n int) *ownObj {
	f := netip.MustParseAddr([]string{"10.0.0.0", "2001:db8::fff0", "0.0.0.0", "::1"}[c.Rng.IntN(4)])
	adr := []netip.Addr{f}
	for len(adr) < n+5 {
		adr = append(adr, adr[len(adr)-1].Next())
	}
	t := iptable.New(f, adr[n+4])
	rt := func(k int, v int32) rtable.Route {
		return rtable.NewRoute(netip.PrefixFrom(adr[k], adr[k].BitLen()), vlabels(v), nil)
	}
	o := &ownObj{name: "iptable", n: n}
	o.set = func(k int, v int32) error { return t.Claim(adr[k].String(), rt(k, v)) }
	o.upd = func(k int, v int32) error { return t.Update(adr[k].String(), rt(k, v)) }
	o.del = func(k int) error { return t.Release(adr[k].String()) }
	str := func(r rtable.Route) string { return r.Prefix().String() + ":" + r.Labels()["v"] }
	elem := func(k int, v int32) string {
		return netip.PrefixFrom(adr[k], adr[k].BitLen()).String() + ":" + num(uint64(v))
	}
	o.lists = []ownList{{"GetAll", func() handed { return handedList[rtable.Route]{t.GetAll(), str} }, func(vals []int32) string { return renderWhere(vals, elem, stored) }}}
	for p := uint64(0); p < 2; p++ {
		sel, f := parityOf(p)
		o.lists = append(o.lists, ownList{"GetByLabel", func() handed { return handedList[rtable.Route]{t.GetByLabel(sel), str} },
			func(vals []int32) string { return renderWhere(vals, elem, func(k int, v int32) bool { return f(v) }) }})
	}
	return o
}

func ownTree(c *Case, prop string, i, n int) *ownObj {
	w := widths[i%3]
	t, err := w.NewTree("own", w.B)
	c.Check(err == nil && t != nil, "New(%d) = %v", w.B, err)
	chain := min(int(w.B), n) // prefixes of all lengths over the first two ids, then single ids
	id := func(k int) tree.ID {
		if k < chain {
			return w.NewID(0, uint8(k))
		}
		return w.NewID(uint64(k-chain)+1, w.B)
	}
	o := &ownObj{name: "tree" + num(uint64(w.B)), n: n}
	o.set = func(k int, v int32) error { return t.ClaimID(id(k), vlabels(v)) }
	o.upd = func(k int, v int32) error { return t.Update(id(k), vlabels(v)) }
	o.del = func(k int) error { return t.ReleaseID(id(k)) }
	elem := func(k int, v int32) string {
		x := id(k)
		return num(x.ID()) + "/" + num(uint64(x.Length())) + ":" + num(uint64(v))
	}
	ls := entryLists(elem, t.GetAll, t.GetByLabel)
	switch prop {
	case "C13":
		o.lists = ls[:1]
	case "C17":
		o.lists = ls[1:]
	case "C16":
		list := func(what string, f func(tree.ID) tree.Entries, q tree.ID, which func(k int) bool) {
			o.lists = append(o.lists, ownList{what, func() handed { return handedList[tree.Entry]{f(q), entryStr} },
				func(vals []int32) string {
					return renderWhere(vals, elem, func(k int, v int32) bool { return v != 0 && which(k) })
				}})
		}
		list("Children(everything)", t.Children, w.NewID(0, 0), func(k int) bool { return k > 0 })
		list("Children(1)", t.Children, w.NewID(0, 1), func(k int) bool { return k > 1 })
		list("Parents(1)", t.Parents, w.NewID(1, w.B), func(k int) bool { return k < chain })
		list("Parents(0/3)", t.Parents, w.NewID(0, 3), func(k int) bool { return k < min(3, chain) })
	}
	return o
}

var ownSizes = []int{1, 3, 10, 40, 64, 100, 128, 129, 200, 256, 257, 500, 512, 700, 1000, 1024, 1025, 2000, 4096, 5000, 9000}

func ownSection(r *Run) {
	build := map[string]func(c *Case, i, n int) *ownObj{
		"C10": func(c *Case, i, n int) *ownObj { return ownTab(c, i, n) },
		"C12": func(c *Case, i, n int) *ownObj { return ownIP(c, n) },
	}
	for _, p := range []string{"C02", "C03", "C04"} {
		build[p] = func(c *Case, i, n int) *ownObj { return ownIdx(c, p, n) }
	}
	for _, p := range []string{"C13", "C16", "C17"} {
		build[p] = func(c *Case, i, n int) *ownObj { return ownTree(c, p, i, n) }
	}
	mk := build[r.Prop]
	if mk == nil {
		return
	}
	r.rule += " own: lists of 1 to 9000 elements asked for twice, one of them overwritten, reordered or appended to by the caller, which neither the other nor the next may show, and operations afterwards may not show in either; non-trivial when a list was not empty."
	cases := 84 // whatever the scale
	if r.thorough() {
		cases = 2100
	}
	r.Each("own", cases, func(c *Case, i int) {
		rng := c.Rng
		n := ownSizes[i%len(ownSizes)]
		o := mk(c, i/len(ownSizes), n)
		c.Op("%s with up to %d elements", o.name, n)
		vals := make([]int32, n)
		v := int32(0)
		change := func() {
			for tries := 0; tries < 20; tries++ {
				k := rng.IntN(n)
				if rng.IntN(3) == 0 {
					k = n - 1
				}
				var err error
				v++
				if vals[k] == 0 {
					err, vals[k] = o.set(k, v), v
				} else if rng.IntN(2) == 0 {
					err, vals[k] = o.upd(k, v), v
				} else {
					err, vals[k] = o.del(k), 0
				}
				c.Check(err == nil, "a claim, update or release of element %d of %d failed: %v", k, n, err)
				return
			}
		}
		dense := rng.IntN(3) > 0
		for k := range vals {
			if dense || rng.IntN(2) == 0 {
				v++
				c.Check(o.set(k, v) == nil, "claim of element %d failed", k)
				vals[k] = v
			}
			c.Beat()
		}
		nt := false
		for round := 0; round < 6; round++ {
			type kept struct {
				l    ownList
				h    handed
				want string
			}
			var mine []kept
			look := func(l ownList, when string) handed {
				h, want := l.get(), l.want(vals)
				c.Beat()
				c.Check(h.str() == want, "%s of a %s with %d elements, %s: lists %s, want %s", l.what, o.name, n, when, trunc(h.str(), 400), trunc(want, 400))
				nt = nt || want != ""
				return h
			}
			for _, l := range o.lists {
				a, b := look(l, "once"), look(l, "once more")
				mine = append(mine, kept{l, b, b.str()})
				how := a.wreck(rng)
				c.Op("%s %s", l.what, how)
				for _, k := range mine {
					c.Check(k.h.str() == k.want, "%s of a %s with %d elements: a list the caller has %s has changed another one, which now reads %s", k.l.what, o.name, n, how, trunc(k.h.str(), 400))
				}
				for _, l := range o.lists {
					look(l, "after one was "+how+" by the caller")
				}
			}
			for x := 1 + rng.IntN(3); x > 0; x-- {
				change()
			}
			for _, k := range mine {
				c.Check(k.h.str() == k.want, "%s of a %s with %d elements: a list handed out before an operation has changed by it and now reads %s", k.l.what, o.name, n, trunc(k.h.str(), 400))
			}
			for _, l := range o.lists {
				look(l, "after an operation")
			}
		}
		if nt {
			c.Nontrivial()
		}
	})
}
