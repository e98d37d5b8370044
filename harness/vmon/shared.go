package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"

	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"k8s.io/apimachinery/pkg/labels"
)

// C29: values that goroutines share. Every operation on one of them has the answer it has on an equal value of a lone caller.

func init() { checks["C29"] = checkC29 }

// values is a family of equal values: made again from the same seed, they are equal but share nothing.
type values struct {
	w    *Width
	ids  []tree.ID
	rgs  []tree.Range
	set  *idSet
	es   []tree.Entry
	list []tree.Entry // what a prefix tree listed
	tr   gtree.GTree  // not modified any more
	ix   idxtable.Entries[int32]
	gen  *tree.Tree[string]
	pos  []uint64
}

func makeValues(seed uint64) *values {
	rng := rand.New(rand.NewPCG(seed, 29))
	x := &values{w: widths[rng.IntN(3)]}
	w := x.w
	base := rng.Uint64() & w.Max &^ 1023
	n := 1 + rng.IntN(8)
	if rng.IntN(8) == 0 {
		n = 40 + rng.IntN(200)
	}
	b := w.Builder()
	x.tr, _ = w.NewTree("shared", w.B)
	x.gen = tree.NewTree[string]("shared", w.LeftBit, w.B)
	ix := idxtable.NewTable[int32](1024)
	for k := 0; k < n; k++ {
		lo, hi := base+rng.Uint64N(1024), base+rng.Uint64N(1024)
		if rng.IntN(8) == 0 {
			hi = rng.Uint64() & w.Max
		}
		lo, hi = min(lo, hi), max(lo, hi)
		r := w.RangeFrom(lo, hi)
		x.rgs = append(x.rgs, r)
		l := w.B - uint8(rng.IntN(6))
		id := w.NewID(lo&w.mask(l), l)
		x.ids = append(x.ids, id, w.NewID(hi, w.B))
		ls := vlabels(int32(k % 7))
		x.es = append(x.es, tree.NewEntry(id, ls))
		if k%3 == 0 {
			b.AddId(id)
		} else {
			b.AddRange(r)
		}
		if k%4 == 3 {
			b.RemoveRange(w.RangeFrom(lo, lo+(hi-lo)/3))
		}
		_ = x.tr.ClaimID(id, ls)
		x.gen.Add(id, fmt.Sprint(k), nil)
		_ = ix.Claim(lo&1023, int32(k))
		x.pos = append(x.pos, lo, hi)
	}
	x.set, _ = b.build()
	x.list = x.tr.GetAll()
	x.ix = ix.GetAll()
	return x
}

const sharedKinds = 18

// ask performs one operation on the shared values and tells the answer.
func (x *values) ask(kind, a, b int) string {
	w := x.w
	id, id2 := x.ids[a%len(x.ids)], x.ids[b%len(x.ids)]
	r, r2 := x.rgs[a%len(x.rgs)], x.rgs[b%len(x.rgs)]
	rs := func(rs []tree.Range) string {
		var s []string
		for _, r := range rs {
			s = append(s, r.String())
		}
		return strings.Join(s, " ")
	}
	es := func(es []tree.Entry) string {
		var s []string
		for _, e := range es {
			s = append(s, fmt.Sprintf("%d/%d %s", e.ID().ID(), e.ID().Length(), e.Labels()))
		}
		return strings.Join(s, " ")
	}
	switch kind {
	case 0:
		return idsStr(x.set.IDs())
	case 1:
		return rs(x.set.Ranges())
	case 2:
		got, rest, ok := x.set.RFP(w.B - uint8(a%8))
		if !ok {
			return "none"
		}
		return fmt.Sprintf("%d/%d %s", got.ID(), got.Length(), rs(rest.Ranges()))
	case 3: // a builder of one's own, fed with shared values
		bl := w.Builder()
		bl.addSet(x.set)
		bl.RemoveId(id)
		bl.AddRange(r)
		s, err := bl.build()
		if err != nil {
			return "error"
		}
		return rs(s.Ranges())
	case 4:
		return idsStr(r.IDs())
	case 5:
		return idsStr(r.AppendIDs([]tree.ID{w.NewID(1, w.B)}))
	case 6:
		return fmt.Sprint(r.String(), r.IsValid(), r.IsZero(), r.From().ID(), r.To().ID())
	case 7:
		return fmt.Sprint(r.Less(r2), r.EntirelyBefore(r2), r.CoveredBy(r2), r.InMiddleOf(r2), r.OverlapsStartOf(r2) || r2.OverlapsEndOf(r))
	case 8:
		return r.SetFrom(r2.From()).String() + r.SetTo(r2.To()).String() + r.String()
	case 9:
		m, err := id.Mask(uint8(b % 70))
		if err != nil {
			return "error"
		}
		return fmt.Sprint(m.ID(), m.Length(), id.Masked().ID())
	case 10:
		return fmt.Sprint(id.Overlaps(id2), id.Compare(id2), id.Less(id2), id.Matches(id2.ID()), id.IsLeftBitSet())
	case 11:
		s := id.ShiftLeft(uint8(b % (int(id.Length()) + 1)))
		c := id.Copy()
		return fmt.Sprint(s.ID(), s.Length(), c.ID(), c.Length(), w.RangeOf(id), w.LastID(id).ID())
	case 12:
		full := x.ids[a%len(x.ids)|1] // full length
		return fmt.Sprint(full.Next().ID(), full.Prev().ID(), full.ID())
	case 13:
		e, e2 := x.es[a%len(x.es)], x.es[b%len(x.es)]
		return fmt.Sprint(e.Equal(e2), e.ID().ID(), e.Labels()["v"], len(e.String()) > 0)
	case 14:
		return es(x.list)
	case 15: // a tree of one's own, fed with shared values
		t, err := w.NewTree("own", w.B)
		if err != nil {
			return "error"
		}
		for _, e := range x.list {
			_ = t.ClaimID(e.ID(), e.Labels())
		}
		_ = t.ReleaseID(id)
		return es(t.GetAll()) + es(t.Children(id2)) + es(t.Parents(id2)) + es(t.GetByLabel(labels.Everything()))
	case 16:
		var s []string
		for it := x.gen.Iterate(); it.Next(); {
			vs := slices.Clone(it.Vals())
			slices.Sort(vs)
			s = append(s, strings.Join(vs, ","))
		}
		if b%3 == 0 {
			c := x.gen.Clone()
			c.Add(id, "own", nil)
			c.Delete(id2, func(a, b string) bool { return true }, "")
		}
		return strings.Join(s, " ")
	}
	var s []string
	for _, e := range x.ix {
		s = append(s, fmt.Sprint(e.ID(), e.Data()))
	}
	for it := x.tr.Iterate(); it.Next(); {
		s = append(s, fmt.Sprint(it.Entry().ID().ID()))
	}
	return strings.Join(s, " ")
}

var sharedNames = [sharedKinds]string{"IDs of the set", "Ranges of the set", "RemoveFreePrefix", "AddSet to an own builder", "IDs of a range", "AppendIDs of a range", "reading a range", "relations of ranges",
	"SetFrom and SetTo", "Mask", "comparisons of ids", "ShiftLeft, Copy, RangeOfID", "Next and Prev", "reading an entry", "reading a list", "claims in an own tree", "iterating a generic tree", "iterating tables and trees"}

func checkC29(r *Run) {
	r.rule = "built with the race detector. shared: one family of ids, ranges, a set, entries, lists and trees nobody modifies, used by 2 to 8 goroutines at once, each with every or a few of the operations on them; the first operation on each value is often the same for all. A race report that involves the library, a panic, or an answer other than the one of the same operation on an equal value without company is a violation. Distinct = values and operations; non-trivial = at least two goroutines performed the same operation on the same value."
	r.Each("shared", r.N(400, 20000), func(c *Case, i int) {
		seed := c.Rng.Uint64()
		x := makeValues(seed)
		type q struct{ kind, a, b int }
		var first []q
		for k := 1 + c.Rng.IntN(3); k > 0; k-- {
			first = append(first, q{(i + k) % sharedKinds, c.Rng.IntN(1000), c.Rng.IntN(1000)})
		}
		n := 2 + c.Rng.IntN(3)
		if c.Rng.IntN(5) == 0 {
			n = 8
		}
		qs, outs, pans := make([][]q, n), make([][]string, n), make([]string, n)
		for k := range qs {
			qs[k] = append(qs[k], first...)
			for m := c.Rng.IntN(8); m > 0; m-- {
				qs[k] = append(qs[k], q{c.Rng.IntN(sharedKinds), c.Rng.IntN(1000), c.Rng.IntN(1000)})
			}
		}
		var ready, done sync.WaitGroup
		start := make(chan struct{})
		for k := range qs {
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				defer func() {
					if p := recover(); p != nil {
						pans[k] = fmt.Sprintf("%v\n%s", p, debug.Stack())
					}
				}()
				ready.Done()
				<-start
				for m, o := range qs[k] {
					outs[k] = append(outs[k], x.ask(o.kind, o.a, o.b))
					if m%3 == 1 {
						runtime.Gosched()
					}
				}
			}()
		}
		ready.Wait()
		close(start)
		done.Wait()
		y := makeValues(seed)
		for k := range qs {
			c.key = "panic"
			c.Check(pans[k] == "", "goroutines that use shared values: panic %s", pans[k])
			c.key = ""
			for m, o := range qs[k] {
				c.Op("%d: %s (%d, %d)", k, sharedNames[o.kind], o.a, o.b)
				if want := y.ask(o.kind, o.a, o.b); outs[k][m] != want {
					// alone, once more: an answer that varies by itself is not this property's
					if z := makeValues(seed); z.ask(o.kind, o.a, o.b) == want {
						c.Fail("%s of a shared value: %s, and %s without company", sharedNames[o.kind], shortOut(outs[k][m]), shortOut(want))
					}
				}
			}
		}
		c.Mix(seed)
		c.Nontrivial()
	})
}
