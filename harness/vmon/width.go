package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/table/table16"
	"github.com/henderiw/idxtable/pkg/table/table32"
	"github.com/henderiw/idxtable/pkg/table/table64"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"github.com/henderiw/idxtable/pkg/tree/tree16"
	"github.com/henderiw/idxtable/pkg/tree/tree32"
	"github.com/henderiw/idxtable/pkg/tree/tree64"
	"k8s.io/apimachinery/pkg/labels"
)

// Width gives one interface to the three id widths of the library (public API only).
type Width struct {
	B         uint8
	Max       uint64
	NewTree   func(name string, l uint8) (gtree.GTree, error)
	NewTable  func(s, e uint64) table.Table
	NewID     func(v uint64, l uint8) tree.ID
	RangeFrom func(a, b uint64) tree.Range
	Parse     func(s string) (tree.Range, error)
	RangeOf   func(tree.ID) tree.Range
	LastID    func(tree.ID) tree.ID
	LeftBit   func(uint64) bool
	Builder   func() setBuilder
	Merge     func(l uint64, ll uint8, r uint64, rl uint8) (uint64, uint8)
}

type idSet struct {
	raw    any
	Ranges func() []tree.Range
	IDs    func() []tree.ID
	RFP    func(l uint8) (tree.ID, *idSet, bool)
}

type setBuilder interface {
	AddId(tree.ID)
	RemoveId(tree.ID)
	AddRange(tree.Range)
	RemoveRange(tree.Range)
	addSet(*idSet)
	build() (*idSet, error)
}

type b16 struct{ id16.IDSetBuilder }
type b32 struct{ id32.IDSetBuilder }
type b64 struct{ id64.IDSetBuilder }

func wrap16(s *id16.IDSet) *idSet {
	if s == nil {
		return nil
	}
	return &idSet{s, s.Ranges, s.IDs, func(l uint8) (tree.ID, *idSet, bool) { i, n, ok := s.RemoveFreePrefix(l); return i, wrap16(n), ok }}
}
func wrap32(s *id32.IDSet) *idSet {
	if s == nil {
		return nil
	}
	return &idSet{s, s.Ranges, s.IDs, func(l uint8) (tree.ID, *idSet, bool) { i, n, ok := s.RemoveFreePrefix(l); return i, wrap32(n), ok }}
}
func wrap64(s *id64.IDSet) *idSet {
	if s == nil {
		return nil
	}
	return &idSet{s, s.Ranges, s.IDs, func(l uint8) (tree.ID, *idSet, bool) { i, n, ok := s.RemoveFreePrefix(l); return i, wrap64(n), ok }}
}
func (b *b16) addSet(s *idSet) {
	if s == nil {
		b.AddSet(nil)
		return
	}
	b.AddSet(s.raw.(*id16.IDSet))
}
func (b *b32) addSet(s *idSet) {
	if s == nil {
		b.AddSet(nil)
		return
	}
	b.AddSet(s.raw.(*id32.IDSet))
}
func (b *b64) addSet(s *idSet) {
	if s == nil {
		b.AddSet(nil)
		return
	}
	b.AddSet(s.raw.(*id64.IDSet))
}
func (b *b16) build() (*idSet, error) { s, err := b.IPSet(); return wrap16(s), err }
func (b *b32) build() (*idSet, error) { s, err := b.IPSet(); return wrap32(s), err }
func (b *b64) build() (*idSet, error) { s, err := b.IPSet(); return wrap64(s), err }

var widths = []*Width{
	{B: 16, Max: 1<<16 - 1, NewTree: tree16.New,
		NewTable:  func(s, e uint64) table.Table { return table16.New(uint16(s), uint16(e)) },
		NewID:     func(v uint64, l uint8) tree.ID { return id16.NewID(uint16(v), l) },
		RangeFrom: func(a, b uint64) tree.Range { return id16.RangeFrom(uint16(a), uint16(b)) },
		Parse:     id16.ParseRange, RangeOf: id16.RangeOfID, LastID: id16.LastID, LeftBit: id16.IsLeftBitSet,
		Builder: func() setBuilder { return &b16{} },
		Merge: func(l uint64, ll uint8, r uint64, rl uint8) (uint64, uint8) {
			v, n := tree.MergeID16(uint16(l), ll, uint16(r), rl)
			return uint64(v), n
		}},
	{B: 32, Max: 1<<32 - 1, NewTree: tree32.New,
		NewTable:  func(s, e uint64) table.Table { return table32.New(uint32(s), uint32(e)) },
		NewID:     func(v uint64, l uint8) tree.ID { return id32.NewID(uint32(v), l) },
		RangeFrom: func(a, b uint64) tree.Range { return id32.RangeFrom(uint32(a), uint32(b)) },
		Parse:     id32.ParseRange, RangeOf: id32.RangeOfID, LastID: id32.LastID, LeftBit: id32.IsLeftBitSet,
		Builder: func() setBuilder { return &b32{} },
		Merge: func(l uint64, ll uint8, r uint64, rl uint8) (uint64, uint8) {
			v, n := tree.MergeID32(uint32(l), ll, uint32(r), rl)
			return uint64(v), n
		}},
	{B: 64, Max: 1<<64 - 1, NewTree: tree64.New,
		NewTable:  table64.New,
		NewID:     func(v uint64, l uint8) tree.ID { return id64.NewID(v, l) },
		RangeFrom: func(a, b uint64) tree.Range { return id64.RangeFrom(a, b) },
		Parse:     id64.ParseRange, RangeOf: id64.RangeOfID, LastID: id64.LastID, LeftBit: id64.IsLeftBitSet,
		Builder: func() setBuilder { return &b64{} },
		Merge:   tree.MergeID64},
}

// mask returns the top-l-bits mask of the width; span the number of ids minus one below a prefix of length l.
func (w *Width) mask(l uint8) uint64 {
	if l == 0 {
		return 0
	}
	return (^uint64(0) << (64 - uint(l)) >> (64 - uint(w.B)))
}
func (w *Width) span(l uint8) uint64 { return w.Max &^ w.mask(l) }

// ---- prefixes ----

type pk struct {
	v uint64
	l uint8
}

func (p pk) String() string { return fmt.Sprintf("%d/%d", p.v, p.l) }

func (w *Width) iv(p pk) iv { return iv{p.v &^ w.span(p.l), p.v | w.span(p.l)} }

// contains: q is inside p (or equal).
func (w *Width) contains(p, q pk) bool { return p.l <= q.l && (p.v^q.v)&w.mask(p.l) == 0 }

func sortPks(ps []pk) {
	sort.Slice(ps, func(i, j int) bool {
		if ps[i].v != ps[j].v {
			return ps[i].v < ps[j].v
		}
		return ps[i].l < ps[j].l
	})
}

// decompose is the reference decomposition of [a,b] into the fewest aligned blocks: greedy, largest block first.
func (w *Width) decompose(a, b uint64) []pk {
	var out []pk
	for {
		// largest k with a aligned to 2^k, and a + 2^k - 1 <= b
		k := uint(bits.TrailingZeros64(a))
		if k > uint(w.B) {
			k = uint(w.B)
		}
		for k > 0 {
			sp := ^uint64(0) >> (64 - k)
			if a|sp <= b && a|sp >= a {
				break
			}
			k--
		}
		out = append(out, pk{a, w.B - uint8(k)})
		var sp uint64
		if k > 0 {
			sp = ^uint64(0) >> (64 - k)
		}
		if a|sp >= b {
			return out
		}
		a = (a | sp) + 1
	}
}

// ---- interval sets over uint64 (inclusive bounds) ----

type iv struct{ lo, hi uint64 }
type ivset []iv

func (s ivset) add(n iv) ivset {
	var out ivset
	for _, x := range s {
		// disjoint and not adjacent
		if x.hi < n.lo && x.hi+1 != n.lo || n.hi < x.lo && n.hi+1 != x.lo {
			out = append(out, x)
			continue
		}
		if x.lo < n.lo {
			n.lo = x.lo
		}
		if x.hi > n.hi {
			n.hi = x.hi
		}
	}
	out = append(out, n)
	sort.Slice(out, func(i, j int) bool { return out[i].lo < out[j].lo })
	return out
}

func (s ivset) remove(n iv) ivset {
	var out ivset
	for _, x := range s {
		if x.hi < n.lo || n.hi < x.lo {
			out = append(out, x)
			continue
		}
		if x.lo < n.lo {
			out = append(out, iv{x.lo, n.lo - 1})
		}
		if x.hi > n.hi {
			out = append(out, iv{n.hi + 1, x.hi})
		}
	}
	return out
}

func (s ivset) has(v uint64) bool {
	for _, x := range s {
		if x.lo <= v && v <= x.hi {
			return true
		}
	}
	return false
}

func (s ivset) String() string {
	var b []string
	for _, x := range s {
		b = append(b, fmt.Sprintf("%d-%d", x.lo, x.hi))
	}
	return "{" + strings.Join(b, " ") + "}"
}

func (s ivset) equal(t ivset) bool {
	if len(s) != len(t) {
		return false
	}
	for i := range s {
		if s[i] != t[i] {
			return false
		}
	}
	return true
}

// ---- labels ----

func lkey(l labels.Set) string {
	ks := make([]string, 0, len(l))
	for k := range l {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(strconv.Quote(k))
		b.WriteByte('=')
		b.WriteString(strconv.Quote(l[k]))
		b.WriteByte(',')
	}
	return b.String()
}

func cloneLabels(l labels.Set) labels.Set {
	if l == nil {
		return nil
	}
	m := labels.Set{}
	for k, v := range l {
		m[k] = v
	}
	return m
}
