package main

import (
	"fmt"
	"math/rand/v2"
	"net/netip"
	"runtime"
	"strconv"

	rtable "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/tree"
	"k8s.io/apimachinery/pkg/labels"
)

func init() { checks["C20"] = checkC20 }

// churner is an object under churn with a cheap reference model.
type churner interface {
	step(c *Case, rng *rand.Rand) // one operation, its immediate outcome checked
	verify(c *Case)               // complete comparison with the model and, at the end, with what a fresh object would do
	keep() any
}

func liveHeap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// allowedGrowth is what live memory may differ by between two moments of a churn whose content stays bounded. Content is
// at most a few hundred ids (tens of KB); a leak of 1 byte per operation over the quick tier's operation counts exceeds it.
const allowedGrowth = 64 << 10

// ---- small objects, every operation judged by the sequential specification ----

type specChurn struct {
	t  target
	st cstate
	g  *gctx
	v  int32
	ks []int
}

func newSpecChurn(t target) *specChurn {
	s := &specChurn{t: t, g: &gctx{}, st: make(cstate, t.slots())}
	for k := range t.kinds() {
		s.ks = append(s.ks, k)
	}
	return s
}
func (s *specChurn) keep() any { return s.t }
func (s *specChurn) step(c *Case, rng *rand.Rand) {
	s.v = s.v%1000000 + 1
	k := s.ks[rng.IntN(len(s.ks))]
	o := s.t.gen(rng, k, s.v)
	if k >= s.t.lin() {
		s.t.do(s.g, o)
		return
	}
	if rng.IntN(12) == 0 {
		o = s.t.bad(rng, k, s.v)
	}
	out := s.t.do(s.g, o)
	ok, ns := s.t.step(s.st, o, out)
	if !ok {
		c.Fail("%s after long churn: %s = %q does not fit the content %v", s.t.name(), s.t.describe(o), out, s.st)
	}
	s.st = ns
}
func (s *specChurn) verify(c *Case) {
	for k := 0; k < s.t.lin(); k++ {
		for i := 0; i < 3; i++ {
			o := s.t.gen(c.Rng, k, 7)
			out := s.t.do(s.g, o)
			ok, ns := s.t.step(s.st, o, out)
			if !ok {
				c.Fail("%s after long churn: %s = %q does not fit the content %v", s.t.name(), s.t.describe(o), out, s.st)
			}
			s.st = ns
		}
	}
}

// ---- index table with a wide, moving content ----

type idxChurn struct {
	t    idxtable.Table[[2]int]
	n    uint64
	m    map[uint64]int
	ids  []uint64
	max  int
	uid  int
	next uint64
}

func (s *idxChurn) keep() any { return s.t }
func (s *idxChurn) put(id uint64) {
	s.m[id] = s.uid
	s.ids = append(s.ids, id)
}
func (s *idxChurn) step(c *Case, rng *rand.Rand) {
	s.uid++
	d := [2]int{s.uid, 1}
	full := len(s.m) >= s.max
	switch op := rng.IntN(12); {
	case op < 4 && !full:
		id := rng.Uint64N(s.n)
		if rng.IntN(2) == 0 { // a window that moves through the whole id space
			s.next = (s.next + 1 + rng.Uint64N(7)) % s.n
			id = s.next
		}
		_, cl := s.m[id]
		if (s.t.Claim(id, d) == nil) == cl {
			c.Fail("Claim(%d): claimed %v, result disagrees", id, cl)
		}
		if !cl {
			s.put(id)
		}
	case op == 4 && !full:
		e, err := s.t.ClaimDynamic(d)
		if err != nil {
			c.Fail("ClaimDynamic failed with %d of %d ids claimed: %v", len(s.m), s.n, err)
		}
		if _, cl := s.m[e.ID()]; cl {
			c.Fail("ClaimDynamic returned the claimed id %d", e.ID())
		}
		s.put(e.ID())
	case op == 5 && !full:
		es, err := s.t.ClaimSize(3, d)
		if err != nil {
			c.Fail("ClaimSize failed with %d of %d ids claimed: %v", len(s.m), s.n, err)
		}
		for _, e := range es {
			s.put(e.ID())
		}
	case op == 6 && !full:
		start := rng.Uint64N(s.n - 4)
		want := true
		for i := start; i < start+4; i++ {
			if _, cl := s.m[i]; cl {
				want = false
			}
		}
		if (s.t.ClaimRange(start, 4, d) == nil) != want {
			c.Fail("ClaimRange(%d,4): free %v, result disagrees", start, want)
		}
		if want {
			for i := start; i < start+4; i++ {
				s.put(i)
			}
		}
	case op == 7 && len(s.ids) > 0:
		id := s.ids[rng.IntN(len(s.ids))]
		if s.t.Update(id, d) != nil {
			c.Fail("Update(%d) of a claimed id failed", id)
		}
		s.m[id] = s.uid
	case op == 8:
		s.t.Release(rng.Uint64N(s.n) | 1<<62) // outside
		s.t.FindFree()
		s.t.FindFreeSize(2)
		if s.uid%16 == 0 {
			s.t.GetAll()
			it := s.t.Iterate()
			it.Next()
		}
	default:
		if len(s.ids) > 0 && (full || op >= 9) {
			k := rng.IntN(len(s.ids))
			id := s.ids[k]
			s.ids[k] = s.ids[len(s.ids)-1]
			s.ids = s.ids[:len(s.ids)-1]
			if s.t.Release(id) != nil {
				c.Fail("Release(%d) of a claimed id failed", id)
			}
			delete(s.m, id)
		}
	}
}
func (s *idxChurn) verify(c *Case) {
	if s.t.Size() != len(s.m) {
		c.Fail("Size() = %d after churn, want %d", s.t.Size(), len(s.m))
	}
	for _, e := range s.t.GetAll() {
		if d, ok := s.m[e.ID()]; !ok || e.Data()[0] != d {
			c.Fail("entry %d = %v after churn is not part of the content", e.ID(), e.Data())
		}
	}
	for id := range s.m {
		if !s.t.Has(id) || s.t.IsFree(id) {
			c.Fail("id %d lost after churn", id)
		}
	}
	// every released id is allocatable: a table of modest size can be filled up completely, and emptied again
	if s.n <= 5000 {
		var got []uint64
		for {
			e, err := s.t.ClaimDynamic([2]int{1, 1})
			if err != nil {
				break
			}
			got = append(got, e.ID())
		}
		if len(got)+len(s.m) != int(s.n) {
			c.Fail("after churn only %d of %d ids could be claimed", len(got)+len(s.m), s.n)
		}
		for _, id := range got {
			s.t.Release(id)
		}
	}
}

// ---- windowed tables and IP tables with a moving content ----

// newSel is a selector not used before, in one of several forms.
func newSel(n int) labels.Selector {
	v := strconv.Itoa(n)
	f := []string{"uid=" + v, "uid!=" + v, "uid in (" + v + ",x)", "k" + v, "uid>" + v, "!k" + v}
	sel, err := labels.Parse(f[n/5%len(f)])
	if err != nil {
		panic(err)
	}
	return sel
}

type winChurn struct {
	claim, release, update func(uint64, labels.Set) error
	free                   func(labels.Set) (uint64, error)
	size                   func() int
	has                    func(uint64) bool
	list                   func() int
	byLabel                func(labels.Selector) int
	obj                    any
	lo, n                  uint64
	m                      map[uint64]bool
	ids                    []uint64
	max, uid               int
}

func (s *winChurn) keep() any { return s.obj }
func (s *winChurn) step(c *Case, rng *rand.Rand) {
	s.uid++
	l := labels.Set{"uid": strconv.Itoa(s.uid)}
	full := len(s.ids) >= s.max
	switch op := rng.IntN(10); {
	case op < 3 && !full:
		id := s.lo + rng.Uint64N(s.n)
		if (s.claim(id, l) == nil) == s.m[id] {
			c.Fail("Claim(%d): claimed %v, result disagrees", id, s.m[id])
		}
		if !s.m[id] {
			s.m[id] = true
			s.ids = append(s.ids, id)
		}
	case op < 5 && !full:
		id, err := s.free(l)
		if err != nil || s.m[id] || id < s.lo || id-s.lo >= s.n {
			c.Fail("claiming a free id gave %d, %v (claimed %v)", id, err, s.m[id])
		}
		s.m[id] = true
		s.ids = append(s.ids, id)
	case op == 5 && len(s.ids) > 0:
		id := s.ids[rng.IntN(len(s.ids))]
		if s.update(id, l) != nil {
			c.Fail("Update(%d) of a claimed id failed", id)
		}
	case op == 6:
		id := s.lo + rng.Uint64N(s.n)
		if s.has(id) != s.m[id] {
			c.Fail("Has(%d) = %v, want %v", id, !s.m[id], s.m[id])
		}
		if s.uid%16 == 0 {
			s.list()
		}
		if s.uid%5 == 0 {
			s.byLabel(newSel(s.uid))
		}
	default:
		if len(s.ids) > 0 && (full || op >= 7) {
			k := rng.IntN(len(s.ids))
			id := s.ids[k]
			s.ids[k] = s.ids[len(s.ids)-1]
			s.ids = s.ids[:len(s.ids)-1]
			if s.release(id, nil) != nil {
				c.Fail("Release(%d) of a claimed id failed", id)
			}
			delete(s.m, id)
		}
	}
}
func (s *winChurn) verify(c *Case) {
	if s.size() != len(s.m) || s.list() != len(s.m) {
		c.Fail("Size() = %d, %d listed after churn, want %d", s.size(), s.list(), len(s.m))
	}
	for id := range s.m {
		if !s.has(id) {
			c.Fail("id %d lost after churn", id)
		}
	}
	if s.n <= 3000 {
		var got []uint64
		for {
			id, err := s.free(nil)
			if err != nil {
				break
			}
			got = append(got, id)
		}
		if len(got)+len(s.m) != int(s.n) {
			c.Fail("after churn only %d of %d ids could be claimed", len(got)+len(s.m), s.n)
		}
		for _, id := range got {
			s.release(id, nil)
		}
	}
}

func newWinChurn(w *Width, lo, n uint64, max int) *winChurn {
	t := w.NewTable(lo, lo+n-1)
	return &winChurn{lo: lo, n: n, max: max, m: map[uint64]bool{}, obj: t, claim: func(i uint64, l labels.Set) error { return t.Claim(i, l) },
		release: func(i uint64, _ labels.Set) error { return t.Release(i) }, update: func(i uint64, l labels.Set) error { return t.Update(i, l) },
		free: func(l labels.Set) (uint64, error) {
			e, err := t.ClaimFree(l)
			if err != nil {
				return 0, err
			}
			return e.ID().ID(), nil
		}, size: t.Size, has: t.Has, list: func() int { return len(t.GetAll()) },
		byLabel: func(sel labels.Selector) int { return len(t.GetByLabel(sel)) }}
}

func newIPChurn(from string, n uint64, max int) *winChurn {
	f := netip.MustParseAddr(from)
	adr := func(i uint64) netip.Addr {
		b := f.As16()
		for k, carry := 15, i; carry > 0; k-- {
			v := uint64(b[k]) + carry&0xff
			b[k] = byte(v)
			carry = carry>>8 + v>>8
		}
		a := netip.AddrFrom16(b)
		if f.Is4() {
			a = a.Unmap()
		}
		return a
	}
	off := func(a netip.Addr) uint64 {
		x, y := a.As16(), f.As16()
		var r uint64
		for k := 8; k < 16; k++ {
			r = r<<8 + uint64(x[k]) - uint64(y[k])
		}
		return r
	}
	t := iptable.New(f, adr(n-1))
	rt := func(l labels.Set) rtable.Route { return rtable.NewRoute(netip.PrefixFrom(f, f.BitLen()), l, nil) }
	return &winChurn{lo: 0, n: n, max: max, m: map[uint64]bool{}, obj: t,
		claim:   func(i uint64, l labels.Set) error { return t.Claim(adr(i).String(), rt(l)) },
		release: func(i uint64, _ labels.Set) error { return t.Release(adr(i).String()) },
		update:  func(i uint64, l labels.Set) error { return t.Update(adr(i).String(), rt(l)) },
		free: func(l labels.Set) (uint64, error) {
			a, err := t.FindFree()
			if err != nil {
				return 0, err
			}
			return off(a), t.Claim(a.String(), rt(l))
		}, size: t.Size, has: func(i uint64) bool { return t.Has(adr(i).String()) }, list: func() int { return len(t.GetAll()) },
		byLabel: func(sel labels.Selector) int { return len(t.GetByLabel(sel)) }}
}

// ---- prefix trees and generic trees with prefixes from the whole id space ----

type treeChurn struct {
	w        *Width
	L        uint8
	t        interface{ keepAlive() any }
	set      func(tree.ID, pk, int)
	del      func(tree.ID, pk, int)
	dump     func() []pk
	clone    func()
	bulk     func(c *Case, rng *rand.Rand)
	look     func(id tree.ID, n int) // look-ups that change nothing
	m        map[pk]int
	ks       []pk
	max, uid int
	hot      []pk
}

func (s *treeChurn) keep() any { return s.t }
func (s *treeChurn) randPfx(rng *rand.Rand) pk {
	l := s.w.B - s.L + uint8(rng.IntN(int(s.L)+1))
	switch rng.IntN(4) {
	case 0:
		if len(s.ks) > 0 { // a relative of a present one, so that nodes split and merge
			p := s.ks[rng.IntN(len(s.ks))]
			l = s.w.B - s.L + uint8(rng.IntN(int(s.L)+1))
			v := p.v ^ (uint64(1) << rng.IntN(int(s.L)))
			return pk{v & s.w.mask(l), l}
		}
	case 1:
		l = s.w.B
	case 2:
		if len(s.hot) > 0 {
			return s.hot[rng.IntN(len(s.hot))]
		}
	}
	v := rng.Uint64()
	if s.L < 64 {
		v &= 1<<s.L - 1
	}
	p := pk{v & s.w.mask(l), l}
	if len(s.hot) < 12 {
		s.hot = append(s.hot, p)
	}
	return p
}

func (s *treeChurn) drop(k int) {
	p := s.ks[k]
	s.ks[k] = s.ks[len(s.ks)-1]
	s.ks = s.ks[:len(s.ks)-1]
	delete(s.m, p)
}

func (s *treeChurn) step(c *Case, rng *rand.Rand) {
	s.uid++
	switch op := rng.IntN(20); {
	case op < 9 && len(s.ks) < s.max:
		p := s.randPfx(rng)
		s.set(s.w.NewID(p.v, p.l), p, s.uid)
		if _, ok := s.m[p]; !ok {
			s.ks = append(s.ks, p)
		}
		s.m[p] = s.uid
	case op == 9 && s.uid%40 == 0 && s.clone != nil:
		s.clone()
	case op == 10 && s.uid%8 == 0 && s.bulk != nil:
		s.bulk(c, rng)
	case op == 11 && s.look != nil:
		p := s.randPfx(rng)
		s.look(s.w.NewID(p.v, p.l), s.uid)
	default:
		if len(s.ks) > 0 {
			k := rng.IntN(len(s.ks))
			p := s.ks[k]
			s.del(s.w.NewID(p.v, p.l), p, s.m[p])
			s.drop(k)
			if rng.IntN(30) == 0 { // empty it
				for len(s.ks) > 0 {
					p := s.ks[len(s.ks)-1]
					s.del(s.w.NewID(p.v, p.l), p, s.m[p])
					s.drop(len(s.ks) - 1)
				}
			}
		}
	}
}
func (s *treeChurn) verify(c *Case) {
	want := append([]pk(nil), s.ks...)
	sortPks(want)
	got := s.dump()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fail("after churn the tree holds %v, want %v", got, want)
	}
}

type keeper struct{ v func() any }

func (k keeper) keepAlive() any { return k.v() }

func newTreeChurn(w *Width, L uint8, max int, clones bool) *treeChurn {
	t, err := w.NewTree("churn", L)
	if err != nil {
		panic(err)
	}
	lab := func(n int) labels.Set { return labels.Set{"n": strconv.Itoa(n), "p": strconv.Itoa(n & 3)} }
	s := &treeChurn{w: w, L: L, max: max, m: map[pk]int{}, t: keeper{func() any { return t }}}
	s.set = func(id tree.ID, _ pk, n int) {
		if n&1 == 0 {
			t.ClaimID(id, lab(n))
		} else {
			t.Update(id, lab(n))
		}
	}
	s.del = func(id tree.ID, _ pk, n int) { t.ReleaseID(id) }
	s.dump = func() []pk {
		var out []pk
		for _, e := range t.GetAll() {
			out = append(out, pk{e.ID().ID(), e.ID().Length()})
		}
		return out
	}
	if clones {
		s.clone = func() { t = t.Clone() }
	}
	s.look = func(id tree.ID, n int) {
		t.Children(id)
		t.Parents(id)
		t.Get(id)
		t.GetByLabel(newSel(n))
		if n%3 == 0 {
			t.ReleaseByLabel(labels.SelectorFromSet(labels.Set{"none": strconv.Itoa(n)}))
		}
		t.ClaimRange(fmt.Sprintf("%d-%d", n+1, n), nil)
	}
	s.bulk = func(c *Case, rng *rand.Rand) {
		switch rng.IntN(3) {
		case 0:
			p := strconv.Itoa(rng.IntN(4))
			t.ReleaseByLabel(labels.SelectorFromSet(labels.Set{"p": p}))
			for k := 0; k < len(s.ks); {
				if strconv.Itoa(s.m[s.ks[k]]&3) == p {
					s.drop(k)
				} else {
					k++
				}
			}
		case 1:
			a := rng.Uint64()
			if L < 64 {
				a &= 1<<L - 1
			}
			b := a + rng.Uint64N(30)
			if b < a || (L < 64 && b >= 1<<L) {
				b = a
			}
			if t.ClaimRange(fmt.Sprintf("%d-%d", a, b), lab(s.uid)) != nil {
				c.Fail("ClaimRange(%d-%d) failed", a, b)
			}
			for _, p := range w.decompose(a, b) {
				if _, ok := s.m[p]; !ok {
					s.ks = append(s.ks, p)
				}
				s.m[p] = s.uid
			}
		case 2:
			e, err := t.ClaimFree(lab(s.uid))
			if err != nil {
				return
			}
			p := pk{e.ID().ID(), e.ID().Length()}
			if _, ok := s.m[p]; !ok {
				s.ks = append(s.ks, p)
			}
			s.m[p] = s.uid
		}
	}
	return s
}

// newGenChurn drives the generic tree with several values per prefix.
func newGenChurn(w *Width, max int, clones bool) *treeChurn {
	t := tree.NewTree[int]("churn", w.LeftBit, w.B)
	s := &treeChurn{w: w, L: w.B, max: max, m: map[pk]int{}, t: keeper{func() any { return t }}}
	vals := map[pk][]int{}
	eq := func(a, b int) bool { return a == b }
	s.set = func(id tree.ID, p pk, n int) {
		t.Add(id, n, eq)
		vals[p] = append(vals[p], n)
		if n%3 == 0 { // drop the oldest again: deletes one of several
			t.Delete(id, eq, vals[p][0])
			vals[p] = vals[p][1:]
			if len(vals[p]) == 0 {
				t.Add(id, n, nil)
				vals[p] = append(vals[p], n)
			}
		}
		for len(vals[p]) > 5 {
			t.Delete(id, eq, vals[p][2])
			vals[p] = append(vals[p][:2:2], vals[p][3:]...)
		}
	}
	s.del = func(id tree.ID, p pk, _ int) {
		if len(vals[p])%2 == 0 {
			t.Delete(id, func(int, int) bool { return true }, 0)
		} else {
			for _, v := range vals[p] {
				t.Delete(id, eq, v)
			}
		}
		delete(vals, p)
	}
	s.dump = func() []pk {
		// identify the prefix by its values
		at := map[int]pk{}
		for p, vs := range vals {
			for _, v := range vs {
				at[v] = p
			}
		}
		var out []pk
		it := t.Iterate()
		for it.Next() {
			vs := it.Vals()
			p := at[vs[0]]
			if len(vs) != len(vals[p]) {
				p = pk{^uint64(0), 255}
			}
			out = append(out, p)
		}
		return out
	}
	if clones {
		s.clone = func() { t = t.Clone() }
	}
	return s
}

// idsChurn: the id and range functions with ever different arguments.
type idsChurn struct {
	w   *Width
	uid uint64
}

func (s *idsChurn) keep() any { return nil }
func (s *idsChurn) step(c *Case, rng *rand.Rand) {
	w := s.w
	s.uid++
	a := rng.Uint64() & w.Max
	b := min(w.Max, a+rng.Uint64N(50))
	if b < a {
		b = w.Max
	}
	var r tree.Range
	var err error
	if s.uid%2 == 0 {
		r = w.RangeFrom(a, b)
	} else if r, err = w.Parse(fmt.Sprintf("%d-%d", a, b)); err != nil {
		c.Fail("ParseRange(%d-%d): %v", a, b, err)
	}
	ids := r.IDs()
	if len(ids) == 0 || ids[0].ID() != a {
		c.Fail("IDs of %d-%d: %s", a, b, idsStr(ids))
	}
	id := ids[len(ids)-1]
	if w.RangeOf(id).To().ID() != b {
		c.Fail("the ids of %d-%d end with %v", a, b, id)
	}
	_, _ = id.String(), r.String()
	_, _, _ = id.Next(), id.Prev(), id.Copy()
	if s.uid%8 == 0 {
		bl := w.Builder()
		bl.AddRange(r)
		bl.RemoveId(ids[0])
		set, err := bl.build()
		if err != nil {
			c.Fail("build: %v", err)
		}
		set.IDs()
		set.RFP(w.B)
		w.Parse(fmt.Sprintf("%d-%d", b, s.uid) + "x")
	}
}
func (s *idsChurn) verify(c *Case) {}

func checkC20(r *Run) {
	r.rule = fmt.Sprintf("a case is one object with bounded content (at most some hundred ids) under tens to hundreds of thousands of random claim, update, release, search, listing and refused operations, with contents that move through the whole id space, are emptied and refilled; live heap after garbage collection is compared at checkpoints after a warm-up and may differ by at most %d KB; outcomes are checked against a model throughout, and at the end tables are filled up completely. Non-trivial: all checkpoints were taken.", allowedGrowth>>10)
	r.assume = append(r.assume, "a leak below 64 KB over the operations of a case is not seen")
	type cs struct {
		name string
		ops  int // quick; thorough is 10x
		mk   func() churner
	}
	var cases []cs
	idx := func(n uint64, max int) churner {
		return &idxChurn{t: idxtable.NewTable[[2]int](n), n: n, m: map[uint64]int{}, max: max}
	}
	cases = append(cases,
		cs{"idxtable spec", 200000, func() churner { return newSpecChurn(newIx(9)) }},
		cs{"idxtable 4096/300", 300000, func() churner { return idx(4096, 300) }},
		cs{"idxtable 500/480", 200000, func() churner { return idx(500, 480) }},
		cs{"idxtable 2^62/200", 300000, func() churner { return idx(1<<62, 200) }},
		cs{"iptable spec", 150000, func() churner { return newSpecChurn(newIP("10.0.0.250", 9)) }},
		cs{"iptable v4", 150000, func() churner { return newIPChurn("10.0.0.0", 2000, 150) }},
		cs{"idxtable 2^62/1", 300000, func() churner { return idx(1<<62, 1) }},
		cs{"iptable v6/1", 150000, func() churner { return newIPChurn("2001:db8::ffff:ff00", 1<<40, 1) }},
		cs{"iptable v6", 150000, func() churner { return newIPChurn("2001:db8::ffff:ff00", 1<<40, 150) }})
	for _, w := range widths {
		w := w
		n := fmt.Sprint(w.B)
		wide := w.Max / 2
		cases = append(cases,
			cs{"table" + n + " spec", 150000, func() churner { return newSpecChurn(newTb(w, 7, 9)) }},
			cs{"table" + n + " 1000", 150000, func() churner { return newWinChurn(w, 11, 1000, 150) }},
			cs{"table" + n + " wide", 200000, func() churner { return newWinChurn(w, 100, wide, 150) }},
			cs{"table" + n + " wide/1", 150000, func() churner { return newWinChurn(w, 100, wide, 1) }},
			cs{"tree" + n + " /1", 150000, func() churner { return newTreeChurn(w, w.B, 1, false) }},
			cs{"generic" + n + " /1", 300000, func() churner { return newGenChurn(w, 1, false) }},
			cs{"tree" + n + " spec", 100000, func() churner { return newSpecChurn(newTr(w, 3)) }},
			cs{"tree" + n, 120000, func() churner { return newTreeChurn(w, w.B, 40, false) }},
			cs{"tree" + n + " clones", 100000, func() churner { return newTreeChurn(w, w.B, 40, true) }},
			cs{"tree" + n + " narrow", 100000, func() churner { return newTreeChurn(w, 7, 30, false) }},
			cs{"ids" + n, 200000, func() churner { return &idsChurn{w: w} }},
			cs{"generic" + n, 300000, func() churner { return newGenChurn(w, 60, false) }},
			cs{"generic" + n + " clones", 200000, func() churner { return newGenChurn(w, 60, true) }})
	}
	r.Seq("churn", len(cases)*r.N(1, 3), func(c *Case, i int) {
		k := cases[i%len(cases)]
		ops := k.ops
		if r.thorough() {
			ops *= 10
		}
		c.key = "churn:" + k.name
		c.Op("%s: %d operations", k.name, ops)
		c.Mix(uint64(i))
		s := k.mk()
		const phases = 5
		gor := 0
		var heap []uint64
		// The first phase is the warm-up (buffers and maps reach their working size).
		for p := 0; p < phases; p++ {
			for n := 0; n < ops/phases; n++ {
				s.step(c, c.Rng)
				c.Beat()
			}
			s.verify(c)
			h := liveHeap()
			if p == 0 {
				gor = runtime.NumGoroutine()
			} else if g := runtime.NumGoroutine(); g > gor+20 {
				c.Fail("%s: %d goroutines after %d operations, %d after the warm-up", k.name, g, (p+1)*(ops/phases), gor)
			}
			heap = append(heap, h)
			c.trace = append(c.trace, fmt.Sprintf("after %d operations: %d bytes live", (p+1)*(ops/phases), h))
		}
		runtime.KeepAlive(s.keep())
		runtime.KeepAlive(s)
		grow := int64(heap[phases-1]) - int64(heap[0])
		r.Max("largest_growth_bytes", grow)
		c.Check(grow < allowedGrowth, "%s: live memory grew by %d bytes over %d operations although the content is bounded (%v)", k.name, grow, ops*(phases-1)/phases, heap)
		c.Nontrivial()
	})
}
